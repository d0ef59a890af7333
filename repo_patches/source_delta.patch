From 4e363d0f9dfac981b00b4e038ae1bf83cf760f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 01/15] fix: accept a bare entity name as the end of a relation

The grammar in this module's documentation makes the field part of a
relation end optional, and the syntax tree has EntityPath::Entity for it,
but the parser demanded a dot after the entity name.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..cdcecd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -194,7 +194,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 6e60f38e3d80a61ca7e55737d116fda2d43075ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 02/15] fix: report text after the module instead of ignoring
 it

Neither the tokenizer nor the parser looked for the end of its input, so
everything after the closing brace (a second module, stray characters)
and everything after the last readable token was dropped silently.
---
 src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cdcecd3..6077370 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -162,9 +162,13 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
 
     token
         .map_with_span(|tok, span| (tok, span))
-        .padded_by(comment.repeated())
-        .padded_by(spaces)
+        .padded_by(comment.clone().repeated())
+        .padded_by(spaces.clone())
         .repeated()
+        .then_ignore(comment.repeated())
+        .then_ignore(spaces)
+        // Report what can't be read at the end of the source instead of dropping it.
+        .then_ignore(end().recover_with(skip_until([], |_| ())))
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
@@ -269,6 +273,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
         .then(module_entries.padded_by(pad.clone()))
         .then_ignore(just(Token::Ctrl('}')))
         .padded_by(pad.clone())
+        .then_ignore(end())
         .map(|(name, entries)| {
             let mut module = Module::new(name);
 
-- 
2.43.0


From 527f30266899c1c39cb05dcbbb1503f1776c4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 03/15] fix: draw relations whose ends share a terminal port

A relation from a shape to itself (or from an entity to its first or last
field) has pairs of ports at the same place. The empty route between them
was the cheapest, and rendering it failed an assertion.
---
 src/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..88322be 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -804,6 +804,12 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // Ports of a relation from a shape to itself (or to the shape that contains it)
+                // can share a location. No line can be drawn between them.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 5698295e1371cb7709cfaa0a22739ab164dbcd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 04/15] fix: compute a finite view box for a module without
 entities

The height of an empty row was f32::MIN, so the view box of an empty
document had a height of -3.4e38.
---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 88322be..e697209 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From fca08bebfcbc7cfada8deed05ad15b7609d741b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 05/15] fix: intersect lines that cross a rectangle upward

The check for a line inside the rectangle compared only one end with each
horizontal side. With a negative dy a line through the whole rectangle
passed it, and no intersection was reported.
---
 src/geometry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..e6407c8 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,11 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        if x > left
+            && (x + dx) < right
+            && y.min(y + dy) > top
+            && y.max(y + dy) < bottom
+        {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 55719c004a03457bfe900feae3c39739113831c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 06/15] fix: check the first neighbor of a junction for
 collisions too

&& binds tighter than ||, so the first candidate in each direction was
connected without looking whether a shape is in between, and relation
lines were drawn through tables.
---
 src/layout.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index e697209..95f47bd 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y)
+                            && no_collision()
+                        {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +735,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y)
+                            && no_collision()
+                        {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +751,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x)
+                            && no_collision()
+                        {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +767,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x) && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From e4adfb0d005548ef819ace4176650ecfee049fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 07/15] fix: escape names in SVG text

The svg crate writes text as it is, so a quoted identifier with &, <, >
or a control character made the output ill-formed, or injected markup.
---
 src/renderer.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..c8dce9c 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -216,6 +216,31 @@ impl Renderer for SVGRenderer<'_> {
     }
 }
 
+/// Escapes `text` for the content of an element. Characters that can't appear in a XML document,
+/// not even escaped, are replaced with U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            // A XML processor would read a raw carriage return as a newline.
+            '\r' => escaped.push_str("&#13;"),
+            '\u{0}'..='\u{8}'
+            | '\u{B}'
+            | '\u{C}'
+            | '\u{E}'..='\u{1F}'
+            | '\u{FFFE}'
+            | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum SVGAnchor {
     Start,
@@ -245,7 +270,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From d1c869b0653a515250b9b27dee222a5d33679558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 08/15] fix: draw relations that precede the entities they
 connect

A relation was resolved against the entities defined above it only, and
dropped silently when one of its ends was defined further down.
---
 src/erd.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/erd.rs b/src/erd.rs
index fd368f9..cf04d71 100644
--- a/src/erd.rs
+++ b/src/erd.rs
@@ -48,6 +48,7 @@ impl Module {
 
         // node path (e.g. ["users", "id"]) -> node ID
         let mut node_paths: HashMap<EntityPath, mir::NodeId> = HashMap::new();
+        let mut relations: Vec<&EntityRelation> = vec![];
 
         for entry in self.entries.iter() {
             match entry {
@@ -126,15 +127,18 @@ impl Module {
 
                     doc.body_mut().append_child(record_id);
                 }
-                ModuleEntry::EntityRelation(relation) => {
-                    let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
-                    let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
-
-                    doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
-                }
+                ModuleEntry::EntityRelation(relation) => relations.push(relation),
             }
         }
 
+        // A relation can come before the definitions of its entities, so resolve them at last.
+        for relation in relations {
+            let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
+            let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
+
+            doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
+        }
+
         doc
     }
 
-- 
2.43.0


From 10e56f469767a9353b09cc6ffc347ca423c08dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 09/15] fix: start every layout from a clean state

The layout engine kept the route graph of the documents it drew before,
and placing terminal ports again added a second, outdated set, so
relations were routed along the junctions of another diagram.
---
 src/layout.rs | 8 ++++++++
 src/mir.rs    | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 95f47bd..a57b91c 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -323,6 +323,9 @@ impl LayoutEngine for SimpleLayoutEngine {
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
             let Some(record_rect) = record_node.rect() else { continue };
 
+            // Ports of a previous layout are out of date.
+            record_node.clear_terminal_ports();
+
             // In the case of a rectangle, terminal ports are placed in
             // the center of each of the four edges.
             for (x, y, d) in [
@@ -346,6 +349,8 @@ impl LayoutEngine for SimpleLayoutEngine {
                 let Some(field_node) = doc.get_node_mut(field_node_index) else { continue };
                 let Some(field_rect) = field_node.rect() else { continue };
 
+                field_node.clear_terminal_ports();
+
                 if field_id_vec.len() == 1 {
                     for (x, y, d) in [
                         (field_rect.mid_x(), field_rect.min_y(), Orientation::Up),
@@ -439,6 +444,9 @@ impl LayoutEngine for SimpleLayoutEngine {
         //
         // e. Add start/end terminal ports.
 
+        // Forget junctions and ports of the document drawn before.
+        self.edge_route_graph = RouteGraph::new();
+
         // Place junction nodes at the four corner points around each shape node.
         let shape_junctions = self.edge_junction_nodes_around_shapes(&doc);
 
diff --git a/src/mir.rs b/src/mir.rs
index 2fa0ae5..8287706 100644
--- a/src/mir.rs
+++ b/src/mir.rs
@@ -85,6 +85,10 @@ impl NodeData {
     }
 
     // --- Connection points
+    pub fn clear_terminal_ports(&mut self) {
+        self.terminal_ports.clear();
+    }
+
     pub fn terminal_ports(&self) -> impl ExactSizeIterator<Item = &TerminalPort> {
         self.terminal_ports.iter()
     }
-- 
2.43.0


From 025d774fff479ea466caa28ef4a537407dd75828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 10/15] fix: report the error of an empty source instead of
 panicking

ariadne finds no line in an empty source and indexes out of bounds.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..4ff3673 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -100,7 +100,8 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            // ariadne can't find the line of an error in a source without lines.
+            .eprint((filename, Source::from(if src.is_empty() { "\n" } else { &src })))
             .unwrap();
     }
 
-- 
2.43.0


From abb600dfe556ef3603ca85ce31521368500c3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 11/15] fix: keep relation lines off the edges of other tables

Shapes were shrunk for collision detection so that ports on their edges
stay usable, which also let lines between other shapes run along an edge
with the same coordinate.
---
 src/layout.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index a57b91c..e26fa39 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -687,15 +687,7 @@ impl SimpleLayoutEngine {
             .body()
             .children()
             .filter_map(|node_index| doc.get_node(node_index).map(|node| (node_index, node)))
-            .filter_map(|(node_index, node)| {
-                node.rect().map(|r| {
-                    (
-                        node_index,
-                        // Nodes on the edge of shapes must remain. So minus 1.0.
-                        r.inset_by(1.0, 1.0),
-                    )
-                })
-            })
+            .filter_map(|(node_index, node)| node.rect().map(|r| (node_index, r)))
             .collect::<Vec<_>>();
 
         for a in self.edge_route_graph.node_ids() {
@@ -709,7 +701,16 @@ impl SimpleLayoutEngine {
                 let m = self.edge_route_graph.get_node(b).unwrap();
                 let p = n.location();
                 let q = m.location();
-                let no_collision = || !shape_rects.iter().any(|(_, r)| r.intersects_line(p, q));
+                let no_collision = || {
+                    !shape_rects.iter().any(|(_, r)| {
+                        // Nodes on the edge of shapes must remain. So minus 1.0. But lines that
+                        // don't start or end there must not run along the edge either.
+                        let on_edge = r.contains_point(p) || r.contains_point(q);
+                        let inset = if on_edge { 1.0 } else { 0.0 };
+
+                        r.inset_by(inset, inset).intersects_line(p, q)
+                    })
+                };
 
                 if q.x == p.x && q.y < p.y {
                     // vertically upward
-- 
2.43.0


From 29935cbf9613b7a113abb810df8ea0523699f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 12/15] fix: draw square corners for records that are not
 rounded

---
 src/renderer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index c8dce9c..f729c47 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -34,7 +34,7 @@ impl SVGRenderer<'_> {
 impl Renderer for SVGRenderer<'_> {
     fn render(&self, doc: &mir::Document, writer: &mut impl Write) -> Result<(), BackendError> {
         let px = 12f32;
-        let border_radius = 6f32;
+        let border_radius = |record: &mir::RecordShape| if record.rounded { 6f32 } else { 0f32 };
         let record_clip_path_id_prefix = "record-clip-path-";
         let background_color = WebColor::RGB(RGBColor::new(28, 28, 28));
 
@@ -66,7 +66,7 @@ impl Renderer for SVGRenderer<'_> {
         // -- Generate clip paths for record shapes.
         for (record_index, child_id) in doc.body().children().enumerate() {
             let Some(record_node) = doc.get_node(child_id) else { continue };
-            let mir::ShapeKind::Record(_) = record_node.kind() else  { continue };
+            let mir::ShapeKind::Record(record) = record_node.kind() else  { continue };
 
             let Some(record_origin) = record_node.origin else { return Err(BackendError::InvalidLayout(child_id)) };
             let Some(record_size) = record_node.size else { return Err(BackendError::InvalidLayout(child_id)) };
@@ -76,8 +76,8 @@ impl Renderer for SVGRenderer<'_> {
                 .set("y", record_origin.y)
                 .set("width", record_size.width)
                 .set("height", record_size.height)
-                .set("rx", border_radius)
-                .set("ry", border_radius);
+                .set("rx", border_radius(record))
+                .set("ry", border_radius(record));
 
             let id = format!("{}{}", record_clip_path_id_prefix, record_index);
             let clip_path = element::ClipPath::new().set("id", id).add(clip_path_rect);
@@ -99,8 +99,8 @@ impl Renderer for SVGRenderer<'_> {
                 .set("y", record_origin.y)
                 .set("width", record_size.width)
                 .set("height", record_size.height)
-                .set("rx", border_radius)
-                .set("ry", border_radius);
+                .set("rx", border_radius(record))
+                .set("ry", border_radius(record));
             if let Some(border_color) = &record.border_color {
                 table_bg.assign("stroke", border_color.to_string());
             }
-- 
2.43.0


From 5f383b46ad9f78b7c0843bdf8a1f9841976ce33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 13/15] fix: leave edges without placed ends undrawn instead of
 shifting the others' paths

---
 src/layout.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index e26fa39..9e12b91 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -508,16 +508,15 @@ impl LayoutEngine for SimpleLayoutEngine {
 
         // Finding shortest edge paths
         let edge_ids = doc.edge_ids();
-        let mut paths: VecDeque<Vec<Point>> = VecDeque::with_capacity(edge_ids.len());
+        let mut paths: VecDeque<Option<Vec<Point>>> = VecDeque::with_capacity(edge_ids.len());
 
         for edge_id in edge_ids {
-            if let Some(path) = self.find_shortest_edges_path(doc, edge_id) {
-                paths.push_back(path);
-            }
+            // An edge has no path if one of its ends isn't placed.
+            paths.push_back(self.find_shortest_edges_path(doc, edge_id));
         }
 
         for edge in doc.edges_mut() {
-            edge.set_path_points(Some(paths.pop_front().unwrap()));
+            edge.set_path_points(paths.pop_front().unwrap());
         }
     }
 }
-- 
2.43.0


From 165f412482ed2caec510d26dcf173cbcc52e1405 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 14/15] fix: read files whose names are not valid Unicode

std::env::args() panics on such an argument.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4ff3673..851fb8b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,13 +9,13 @@ const DEBUG: bool = false;
 
 fn main() -> Result<(), io::Error> {
     let mut filename = "(stdin)".to_string();
-    let mut args = std::env::args();
+    let mut args = std::env::args_os();
 
     // Read the contents of a specified file or from stdio.
     let src = if args.len() >= 2 {
         let path = args.nth(1).unwrap();
 
-        filename = path.clone();
+        filename = path.to_string_lossy().into_owned();
         fs::read_to_string(path)?
     } else {
         let mut s = String::new();
-- 
2.43.0


From 0878a92b8f9da457308a2ba087916bd76b78859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 15/15] fix: fail instead of panicking when the output can't be
 written

An error of the last, buffered part of the SVG went unnoticed.
---
 src/main.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 851fb8b..9af8652 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,9 +1,13 @@
 use ariadne::{Color, Fmt, Label, Report, ReportKind, Source};
+use seiren::error::BackendError;
 use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
 use seiren::parser::parse;
 use seiren::renderer::{Renderer, SVGRenderer};
 use std::io;
-use std::{fs, io::Read};
+use std::{
+    fs,
+    io::{Read, Write},
+};
 
 const DEBUG: bool = false;
 
@@ -101,8 +105,7 @@ fn main() -> Result<(), io::Error> {
         report
             .finish()
             // ariadne can't find the line of an error in a source without lines.
-            .eprint((filename, Source::from(if src.is_empty() { "\n" } else { &src })))
-            .unwrap();
+            .eprint((filename, Source::from(if src.is_empty() { "\n" } else { &src })))?;
     }
 
     // AST -> MIR
@@ -126,9 +129,13 @@ fn main() -> Result<(), io::Error> {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
 
-        backend
-            .render(&doc, &mut handle)
-            .expect("Couldn't render as SVG.");
+        backend.render(&doc, &mut handle).map_err(|e| match e {
+            BackendError::IoFailure(e) => e,
+            e => io::Error::new(io::ErrorKind::Other, e),
+        })?;
+
+        // The end of the SVG may still be buffered.
+        handle.flush()?;
     }
 
     Ok(())
-- 
2.43.0

