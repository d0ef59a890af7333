//! The harness's own picture of a module, and conversions to and from seiren's.
use seiren::erd;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    Int,
    Uuid,
    Text,
    Timestamp,
}
impl Ty {
    pub fn word(self) -> &'static str {
        match self {
            Ty::Int => "int",
            Ty::Uuid => "uuid",
            Ty::Text => "text",
            Ty::Timestamp => "timestamp",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Key {
    Pk,
    Fk,
}
impl Key {
    pub fn word(self) -> &'static str {
        match self {
            Key::Pk => "PK",
            Key::Fk => "FK",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub key: Option<Key>,
}
/// One end of a relation.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum End {
    Entity(String),
    Field(String, String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Table {
    pub name: String,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Entry {
    Table(Table),
    Rel(End, End),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ast {
    pub name: Option<String>,
    pub entries: Vec<Entry>,
}

pub const KEYWORDS: [&str; 7] = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"];

pub fn is_plain_ident(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some(c) if c == '_' || c.is_ascii_alphabetic())
        && cs.all(|c| c == '_' || c.is_ascii_alphanumeric())
        && !KEYWORDS.contains(&s)
}

impl Ast {
    pub fn tables(&self) -> impl Iterator<Item = &Table> {
        self.entries.iter().filter_map(|e| match e {
            Entry::Table(t) => Some(t),
            _ => None,
        })
    }
    pub fn rels(&self) -> impl Iterator<Item = (&End, &End)> {
        self.entries.iter().filter_map(|e| match e {
            Entry::Rel(a, b) => Some((a, b)),
            _ => None,
        })
    }
    pub fn declared(&self, e: &End) -> bool {
        match e {
            End::Entity(n) => self.tables().any(|t| &t.name == n),
            End::Field(n, f) => self.tables().any(|t| &t.name == n && t.fields.iter().any(|x| &x.name == f)),
        }
    }
    pub fn resolved(&self) -> Vec<(&End, &End)> {
        self.rels().filter(|(a, b)| self.declared(a) && self.declared(b)).collect()
    }

    pub fn to_erd(&self) -> erd::Module {
        let mut m = erd::Module::new(self.name.clone());
        for e in &self.entries {
            match e {
                Entry::Table(t) => m.add_entity_definition(table_to_erd(t)),
                Entry::Rel(a, b) => m.add_entity_relation(erd::EntityRelation::new(end_to_erd(a), end_to_erd(b))),
            }
        }
        m
    }

    pub fn from_erd(m: &erd::Module) -> Ast {
        Ast {
            name: m.name().map(|s| s.to_string()),
            entries: m
                .entries()
                .map(|e| match e {
                    erd::ModuleEntry::EntityDefinition(d) => Entry::Table(Table {
                        name: d.name().to_string(),
                        fields: d
                            .fields()
                            .map(|f| Field {
                                name: f.name().to_string(),
                                ty: match f.field_type() {
                                    erd::EntityFieldType::Int => Ty::Int,
                                    erd::EntityFieldType::Uuid => Ty::Uuid,
                                    erd::EntityFieldType::Text => Ty::Text,
                                    erd::EntityFieldType::Timestamp => Ty::Timestamp,
                                },
                                key: f.field_key().map(|k| match k {
                                    erd::EntityFieldKey::PrimaryKey => Key::Pk,
                                    erd::EntityFieldKey::ForeginKey => Key::Fk,
                                }),
                            })
                            .collect(),
                    }),
                    erd::ModuleEntry::EntityRelation(r) => Entry::Rel(end_from_erd(r.start_path()), end_from_erd(r.end_path())),
                })
                .collect(),
        }
    }
}

pub fn ty_to_erd(t: Ty) -> erd::EntityFieldType {
    match t {
        Ty::Int => erd::EntityFieldType::Int,
        Ty::Uuid => erd::EntityFieldType::Uuid,
        Ty::Text => erd::EntityFieldType::Text,
        Ty::Timestamp => erd::EntityFieldType::Timestamp,
    }
}
pub fn key_to_erd(k: Key) -> erd::EntityFieldKey {
    match k {
        Key::Pk => erd::EntityFieldKey::PrimaryKey,
        Key::Fk => erd::EntityFieldKey::ForeginKey,
    }
}
pub fn table_to_erd(t: &Table) -> erd::EntityDefinition {
    let mut d = erd::EntityDefinition::new(t.name.clone());
    for f in &t.fields {
        d.add_field(field_to_erd(f));
    }
    d
}
pub fn field_to_erd(f: &Field) -> erd::EntityField {
    erd::EntityField::new(f.name.clone(), ty_to_erd(f.ty), f.key.map(key_to_erd))
}
pub fn end_to_erd(e: &End) -> erd::EntityPath {
    match e {
        End::Entity(n) => erd::EntityPath::Entity(n.clone()),
        End::Field(n, f) => erd::EntityPath::Field(n.clone(), f.clone()),
    }
}
pub fn end_from_erd(p: &erd::EntityPath) -> End {
    match p {
        erd::EntityPath::Entity(n) => End::Entity(n.clone()),
        erd::EntityPath::Field(n, f) => End::Field(n.clone(), f.clone()),
    }
}
