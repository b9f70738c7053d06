//! C20: Values and MultipartValues against a reference map, over operation sequences.
use super::Prop;
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::header::ContentType;
use starry::{Header, MultipartValues, Values};
use std::collections::BTreeMap;

pub const C20: Prop = Prop {
    id: "C20",
    shards: 4,
    assumptions: &["'Header' is the same type as 'Values' (type alias), so header containers are covered by the value map"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set(String, String),
    SetStr(String, String),
    Add(String, String),
    AddStr(String, String),
    Del(String),
    /// clone, then change one of the two
    Fork(String, String),
}

const KEYS: &[&str] = &["", "a", "A", "b", "Content-Type", "content-type", "Content-Type ", "ключ", "a=b", "Set-Cookie", "x\0y"];

fn op() -> impl Strategy<Value = Op> {
    let k = || prop_oneof![5 => gen::few(KEYS), 1 => gen::text(6)];
    let v = || prop_oneof![gen::text(12), Just(String::new())];
    prop_oneof![
        1 => (k(), v()).prop_map(|(k, v)| Op::Set(k, v)),
        1 => (k(), v()).prop_map(|(k, v)| Op::SetStr(k, v)),
        2 => (k(), v()).prop_map(|(k, v)| Op::Add(k, v)),
        2 => (k(), v()).prop_map(|(k, v)| Op::AddStr(k, v)),
        1 => k().prop_map(Op::Del),
        1 => (k(), v()).prop_map(|(k, v)| Op::Fork(k, v)),
    ]
}

type Model = BTreeMap<String, Vec<String>>;

fn agree(v: &Values, m: &Model, probe: &[String]) -> Result<(), String> {
    if v.len() != m.len() {
        return Err(format!("len {} instead of {}", v.len(), m.len()));
    }
    let map: BTreeMap<String, Vec<String>> = v.map().into_iter().collect();
    if map != *m {
        return Err(format!("map() is {:?} instead of {:?}", map, m));
    }
    for k in probe.iter().chain(m.keys()) {
        let want = m.get(k);
        if v.vec(k.as_str()) != want.cloned() || v.vec(k) != want.cloned() {
            return Err(format!("vec({:?}) is {:?} instead of {:?}", k, v.vec(k), want));
        }
        let first = want.map(|w| w[0].clone());
        if v.get(k.as_str()) != first || v.get(k) != first {
            return Err(format!("get({:?}) is {:?} instead of {:?}", k, v.get(k), first));
        }
        if v.contain(k.as_str()) != want.is_some() {
            return Err(format!("contain({:?}) is {}", k, v.contain(k)));
        }
    }
    Ok(())
}

fn values_case(ops: &Vec<Op>, cl: &mut Classes) -> Verdict {
    let mut v = Header::new();
    let mut m = Model::new();
    let probe: Vec<String> = KEYS.iter().map(|s| s.to_string()).collect();
    let mut appended = false;
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Set(k, x) => {
                v.set(k.clone(), x.clone());
                cl.when(m.get(k).map_or(false, |w| w.len() > 1), "set-over-several");
                m.insert(k.clone(), vec![x.clone()]);
            }
            Op::SetStr(k, x) => {
                v.set_str(k, x);
                m.insert(k.clone(), vec![x.clone()]);
            }
            Op::Add(k, x) => {
                v.add(k.clone(), x.clone());
                appended |= m.contains_key(k);
                m.entry(k.clone()).or_default().push(x.clone());
            }
            Op::AddStr(k, x) => {
                v.add_str(k, x);
                appended |= m.contains_key(k);
                m.entry(k.clone()).or_default().push(x.clone());
            }
            Op::Del(k) => {
                let got = v.del(k.as_str());
                let want = m.remove(k).map(|w| w[0].clone());
                cl.when(want.is_some(), "del-present");
                if got != want {
                    return Verdict::Fail(format!("after step {}: del({:?}) gave {:?} instead of {:?}", i, k, got, want));
                }
            }
            Op::Fork(k, x) => {
                let mut other = v.clone();
                let mut om = m.clone();
                other.add_str(k, x);
                om.entry(k.clone()).or_default().push(x.clone());
                other.set_str("fork", "1");
                om.insert("fork".into(), vec!["1".into()]);
                if let Err(e) = agree(&other, &om, &probe) {
                    return Verdict::Fail(format!("clone after step {}: {}", i, e));
                }
            }
        }
        if let Err(e) = agree(&v, &m, &probe) {
            return Verdict::Fail(format!("after step {} ({:?}): {}", i, o, e));
        }
    }
    cl.when(appended, "appended-to-existing");
    Verdict::Ok(appended && ops.len() >= 4)
}

fn crowded_case(keys: usize, steps: &[(u16, u8, usize)], cl: &mut Classes) -> Verdict {
    let mut v = Header::new();
    let mut m = Model::new();
    let mut files = MultipartValues::new();
    for k in 0..keys {
        let key = format!("key-{}", k);
        v.add(key.clone(), format!("v{}", k));
        m.insert(key.clone(), vec![format!("v{}", k)]);
        if files.insert_obj(key.clone(), format!("f{}", k), vec![k as u8; k % 5], ContentType::TEXT_HTML).is_some() {
            return Verdict::Fail(format!("file {} replaced another one", key));
        }
    }
    for (i, (k, what, n)) in steps.iter().enumerate() {
        let key = format!("key-{}", *k as usize % keys);
        match what {
            0 => {
                v.set(key.clone(), format!("s{}", i));
                m.insert(key, vec![format!("s{}", i)]);
            }
            1 | 2 => {
                for j in 0..*n {
                    if what % 2 == 1 { v.add(key.clone(), format!("a{}", j)) } else { v.add_str(&key, &format!("a{}", j)) };
                    m.entry(key.clone()).or_default().push(format!("a{}", j));
                }
            }
            3 => {
                for j in (0..keys).step_by(*n) {
                    let key = format!("key-{}", j);
                    let want = m.remove(&key).map(|w| w[0].clone());
                    if v.del(key.as_str()) != want {
                        return Verdict::Fail(format!("step {}: del({:?}) did not give {:?}", i, key, want));
                    }
                }
            }
            _ => {
                for j in 0..*n {
                    let key = format!("more-{}-{}", k, j);
                    v.set_str(&key, "m");
                    m.insert(key, vec!["m".into()]);
                }
            }
        }
    }
    if let Err(e) = agree(&v, &m, &[]) {
        return Verdict::Fail(format!("with {} keys: {}", m.len(), e.chars().take(600).collect::<String>()));
    }
    if files.len() != keys {
        return Verdict::Fail(format!("{} files instead of {}", files.len(), keys));
    }
    for k in 0..keys {
        let key = format!("key-{}", k);
        let got = files.get(key.as_str()).map(|f| (f.filename(), f.size(), f.content()));
        if got != Some((format!("f{}", k), k % 5, vec![k as u8; k % 5])) {
            return Verdict::Fail(format!("{:?} holds {:?}", key, got));
        }
    }
    cl.when(m.values().any(|w| w.len() > 1_000), "over-a-thousand-values");
    Verdict::Ok(m.len() > 100)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    InsertObj { name: String, filename: String, content: Vec<u8> },
    /// stores the file of `from` under `name`
    InsertFrom { name: String, from: String },
    Del(String),
    Fork { name: String, content: Vec<u8> },
}

const FNAMES: &[&str] = &["", "a", "A", "file", "datei", "файл"];

fn fop() -> impl Strategy<Value = FOp> {
    let k = || gen::few(FNAMES);
    prop_oneof![
        4 => (k(), gen::text(10), gen::bytes(300)).prop_map(|(name, filename, content)| FOp::InsertObj { name, filename, content }),
        2 => (k(), k()).prop_map(|(name, from)| FOp::InsertFrom { name, from }),
        2 => k().prop_map(FOp::Del),
        1 => (k(), gen::bytes(20)).prop_map(|(name, content)| FOp::Fork { name, content }),
    ]
}

type FModel = BTreeMap<String, (String, Vec<u8>)>;

fn fagree(v: &MultipartValues, m: &FModel) -> Result<(), String> {
    if v.len() != m.len() {
        return Err(format!("len {} instead of {}", v.len(), m.len()));
    }
    let map = v.map();
    for n in FNAMES {
        let want = m.get(*n);
        if v.have(*n) != want.is_some() {
            return Err(format!("have({:?}) is {}", n, v.have(*n)));
        }
        for got in [v.get(*n), v.get(&n.to_string()), map.get(*n).cloned()] {
            let got = got.map(|f| (f.filename(), f.size(), f.content()));
            let want = want.map(|(f, c)| (f.clone(), c.len(), c.clone()));
            if got != want {
                return Err(format!("{:?} holds {:?} instead of {:?}", n, got, want));
            }
        }
    }
    Ok(())
}

fn files_case(ops: &Vec<FOp>, cl: &mut Classes) -> Verdict {
    let mut v = MultipartValues::new();
    let mut m = FModel::new();
    let mut replaced = false;
    for (i, o) in ops.iter().enumerate() {
        let (got, want) = match o {
            FOp::InsertObj { name, filename, content } => (
                v.insert_obj(name.clone(), filename.clone(), content.clone(), ContentType::TEXT_HTML),
                m.insert(name.clone(), (filename.clone(), content.clone())),
            ),
            FOp::InsertFrom { name, from } => match v.get(from.as_str()) {
                Some(f) => {
                    let src = m[from].clone();
                    (v.insert(name.clone(), f), m.insert(name.clone(), src))
                }
                None => (None, None),
            },
            FOp::Del(name) => (v.del(name.as_str()), m.remove(name)),
            FOp::Fork { name, content } => {
                let mut o = v.clone();
                o.insert_obj(name.clone(), "f".into(), content.clone(), ContentType::TEXT_XML);
                let mut om = m.clone();
                om.insert(name.clone(), ("f".into(), content.clone()));
                if let Err(e) = fagree(&o, &om) {
                    return Verdict::Fail(format!("clone after step {}: {}", i, e));
                }
                (None, None)
            }
        };
        replaced |= want.is_some();
        let g = got.map(|f| (f.filename(), f.content()));
        if g != want {
            return Verdict::Fail(format!("step {} ({:?}) returned {:?} instead of {:?}", i, o, g, want));
        }
        if let Err(e) = fagree(&v, &m) {
            return Verdict::Fail(format!("after step {} ({:?}): {}", i, o, e));
        }
    }
    cl.when(replaced, "file-replaced-or-removed");
    Verdict::Ok(replaced)
}

fn run(ctx: &mut Ctx) {
    ctx.rule("Values: at least 4 operations of which one appends to an existing key; crowded: more than a hundred keys; files: a stored file was replaced or removed.");
    let len = ctx.n(40, 120);
    ctx.run("values", ctx.n(40_000, 1_000_000), vec(op(), 1..len), values_case);
    // far more keys, and far more values under one key, than any request usually has
    let many = (1usize..3_000, vec((any::<u16>(), 0u8..6, 1usize..1_200), 3..40));
    ctx.run("crowded", ctx.n(300, 10_000), many, |(keys, steps), cl| crowded_case(*keys, steps, cl));
    ctx.run("files", ctx.n(20_000, 400_000), vec(fop(), 1..len.min(60)), files_case);
}
