//! Project files and texts written by the released version, with what has to be found in them.
use crate::model::Items;
use crate::plan::Meta;
use crate::raw::Proj;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Clone, Serialize, Deserialize)]
pub struct Fixture {
    pub name: String,
    #[serde(skip)]
    pub db: Vec<u8>,
    pub limit: usize,
    pub line: Vec<Proj>,
    pub metas: Vec<Option<Meta>>,
    pub pos: usize,
    pub base: usize,
    pub texts: Vec<(String, Items, i8, (u8, u8))>,
}

static ALL: OnceLock<Vec<Fixture>> = OnceLock::new();

pub fn dir() -> std::path::PathBuf { std::env::var_os("KSIM_FIXTURES").map(Into::into).unwrap_or_else(|| concat!(env!("CARGO_MANIFEST_DIR"), "/../fixtures").into()) }

pub fn all() -> &'static Vec<Fixture> {
    ALL.get_or_init(|| {
        let mut v: Vec<Fixture> = vec![];
        let Ok(rd) = std::fs::read_dir(dir()) else { return v };
        let mut names: Vec<std::path::PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "json")).collect();
        names.sort();
        for n in names {
            let mut f: Fixture = serde_json::from_slice(&std::fs::read(&n).expect("fixture")).expect("fixture");
            f.db = std::fs::read(n.with_extension("sqlite")).expect("fixture file");
            v.push(f);
        }
        v
    })
}

pub fn get(idx: u32) -> Option<&'static Fixture> { let a = all(); if a.is_empty() { None } else { Some(&a[idx as usize % a.len()]) } }
