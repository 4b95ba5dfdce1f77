//! Spec file format, see specs/README.md
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub file: String,
    pub key: String,
    pub rename: Option<String>,
    pub attr: String,
    pub ret: Option<String>,
    pub rettype: Option<String>,
    pub generics: Option<String>,
    /// extra ghost parameters
    pub params: Option<String>,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub anchors: BTreeMap<String, String>,
    pub opts: Vec<String>,
}
impl FnSpec {
    pub fn emit_key(&self) -> String {
        self.key.clone()
    }
    /// the key without the `#tag` that tells several contracts of one function apart
    pub fn src_key(&self) -> String {
        self.key.split('#').next().unwrap().to_string()
    }
}

pub enum Entry {
    Text(String),
    Item { file: String, key: String, attr: String },
    Static { file: String, key: String, post: String },
    Fn(FnSpec),
}
pub struct SpecFile {
    pub entries: Vec<Entry>,
}
#[derive(Default)]
pub struct PropCfg {
    pub preludes: Vec<String>,
    pub uses: Vec<String>,
    pub verify: Vec<String>,
    pub stubs: Vec<String>,
    pub extra: Vec<String>,
}

pub fn read_prop(dir: &str, prop: &str) -> PropCfg {
    let t = std::fs::read_to_string(format!("{}/{}.prop", dir, prop))
        .unwrap_or_else(|e| crate::fail("spec-error", &format!("{}.prop: {}", prop, e)));
    let mut c = PropCfg::default();
    for l in t.lines() {
        let l = if l.starts_with('#') { "" } else { l.split(" #").next().unwrap().trim() };
        let mut w = l.split_whitespace();
        let list = match w.next() {
            Some("prelude") => &mut c.preludes,
            Some("use") => &mut c.uses,
            Some("verify") => &mut c.verify,
            Some("stub") => &mut c.stubs,
            Some("extra") => &mut c.extra,
            None => continue,
            Some(_) => continue,
        };
        list.extend(w.map(|s| s.to_string()));
    }
    c
}

pub fn read_spec(path: &str) -> SpecFile {
    let t = std::fs::read_to_string(path)
        .unwrap_or_else(|e| crate::fail("spec-error", &format!("{}: {}", path, e)));
    let mut entries: Vec<Entry> = Vec::new();
    let mut file = String::new();
    enum Mode {
        None,
        Text(String),
        Static(String, String, String),
        Fn(FnSpec, String, String),
    }
    let mut mode = Mode::None;
    fn close(mode: Mode, entries: &mut Vec<Entry>) {
        match mode {
            Mode::None => {}
            Mode::Text(s) => entries.push(Entry::Text(s)),
            Mode::Static(file, key, post) => entries.push(Entry::Static { file, key, post }),
            Mode::Fn(mut f, sec, buf) => {
                put(&mut f, &sec, buf);
                entries.push(Entry::Fn(f));
            }
        }
    }
    fn put(f: &mut FnSpec, sec: &str, buf: String) {
        if sec.is_empty() {
            return;
        }
        let (k, arg) = match sec.split_once(' ') {
            Some((k, a)) => (k, a.trim()),
            None => (sec, ""),
        };
        match k {
            "contract" => f.contract.push_str(&buf),
            "attr" => f.attr.push_str(&buf),
            "ret" => f.ret = Some(arg.to_string()),
            "rettype" => f.rettype = Some(arg.to_string()),
            "params" => f.params = Some(arg.to_string()),
            "generics" => f.generics = Some(arg.to_string()),
            "loop" => {
                f.loops.insert(arg.parse().expect("loop number"), buf);
            }
            "closure" => {
                f.closures.insert(arg.parse().expect("closure number"), buf);
            }
            "at" => {
                f.anchors.entry(arg.to_string()).or_default().push_str(&buf);
            }
            "opt" => f.opts.push(arg.to_string()),
            _ => crate::fail("spec-error", &format!("bad section {}", sec)),
        }
    }
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("%%% ") {
            let m = std::mem::replace(&mut mode, Mode::None);
            close(m, &mut entries);
            let mut w = r.split_whitespace();
            match w.next().unwrap() {
                "file" => file = w.next().unwrap().to_string(),
                "item" => {
                    let key = w.next().unwrap().to_string();
                    let attr = w.collect::<Vec<_>>().join(" ");
                    entries.push(Entry::Item { file: file.clone(), key, attr });
                }
                "text" => mode = Mode::Text(String::new()),
                // a static holding floating-point numbers; what follows is its postcondition
                "static" => {
                    let key = w.next().unwrap().to_string();
                    mode = Mode::Static(file.clone(), key, String::new());
                }
                "fn" => {
                    let mut f = FnSpec { file: file.clone(), ..Default::default() };
                    f.key = w.next().unwrap().to_string();
                    if w.next() == Some("as") {
                        f.rename = Some(w.next().unwrap().to_string());
                    }
                    mode = Mode::Fn(f, String::new(), String::new());
                }
                x => crate::fail("spec-error", &format!("bad directive {}", x)),
            }
        } else if let Some(r) = l.strip_prefix("%% ") {
            if let Mode::Fn(f, sec, buf) = &mut mode {
                let b = std::mem::take(buf);
                let s = std::mem::replace(sec, r.trim().to_string());
                put(f, &s, b);
            } else {
                crate::fail("spec-error", &format!("section outside fn: {}", l));
            }
        } else {
            match &mut mode {
                Mode::Text(s) | Mode::Static(_, _, s) => {
                    s.push_str(l);
                    s.push('\n');
                }
                Mode::Fn(_, _, buf) => {
                    buf.push_str(l);
                    buf.push('\n');
                }
                Mode::None => {}
            }
        }
    }
    close(mode, &mut entries);
    SpecFile { entries }
}
