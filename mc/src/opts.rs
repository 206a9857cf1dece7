//! The option space of the transpiler: 3 x 2^4 configurations, plus the optional json path.
use jst::{Context, ResolveMethod};
use serde_json::{json, Value};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Res {
    Cast,
    Drop,
    Panic,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Opts {
    pub res: Res,
    pub case: bool,
    pub force: bool,
    pub tuple: bool,
    pub maps: bool,
    pub path: Option<String>,
}

impl Opts {
    pub fn new(res: Res) -> Opts {
        Opts { res, case: false, force: false, tuple: false, maps: false, path: None }
    }
    pub fn cast() -> Opts {
        Opts::new(Res::Cast)
    }
    pub fn tuple(mut self, b: bool) -> Opts {
        self.tuple = b;
        self
    }
    pub fn case(mut self, b: bool) -> Opts {
        self.case = b;
        self
    }
    pub fn force(mut self, b: bool) -> Opts {
        self.force = b;
        self
    }
    pub fn maps(mut self, b: bool) -> Opts {
        self.maps = b;
        self
    }
    pub fn path(mut self, p: &str) -> Opts {
        self.path = Some(p.to_string());
        self
    }
    pub fn res(mut self, r: Res) -> Opts {
        self.res = r;
        self
    }
    pub fn context(&self) -> Context {
        Context {
            resolve_method: match self.res {
                Res::Cast => ResolveMethod::Cast,
                Res::Drop => ResolveMethod::Drop,
                Res::Panic => ResolveMethod::Panic,
            },
            normalize_case: self.case,
            force_nullable: self.force,
            tuple_struct: self.tuple,
            allow_maps_without_value: self.maps,
            json_object_path_regex: self.path.clone(),
        }
    }
    pub fn json(&self) -> Value {
        json!({"resolve": format!("{:?}", self.res), "normalize_case": self.case, "force_nullable": self.force,
            "tuple_struct": self.tuple, "allow_maps_without_value": self.maps, "json_object_path_regex": self.path})
    }
    pub fn from_json(v: &Value) -> Opts {
        Opts {
            res: match v["resolve"].as_str().unwrap() {
                "Cast" => Res::Cast,
                "Drop" => Res::Drop,
                _ => Res::Panic,
            },
            case: v["normalize_case"].as_bool().unwrap(),
            force: v["force_nullable"].as_bool().unwrap(),
            tuple: v["tuple_struct"].as_bool().unwrap(),
            maps: v["allow_maps_without_value"].as_bool().unwrap(),
            path: v["json_object_path_regex"].as_str().map(String::from),
        }
    }
}

pub const RES: [Res; 3] = [Res::Cast, Res::Drop, Res::Panic];

/// Every combination of the four flags for the given strategies: at most 48.
pub fn all_opts(res: &[Res]) -> Vec<Opts> {
    let mut v = Vec::new();
    for &r in res {
        for bits in 0..16 {
            v.push(Opts {
                res: r,
                tuple: bits & 1 != 0,
                case: bits & 2 != 0,
                force: bits & 4 != 0,
                maps: bits & 8 != 0,
                path: None,
            });
        }
    }
    v
}
