//! C19: Set-Cookie text and reading it back.
use super::timeprop::{instant, render};
use super::Prop;
use crate::drv::{guarded, Classes, Ctx, Verdict, together};
use crate::gen;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::header::cookie::SameSite;
use starry::header::{Cookie, CookieBuilder};
use starry::utils::Time;
use starry::{Header, Response};
use std::collections::BTreeMap;

pub const C19: Prop = Prop {
    id: "C19",
    shards: 4,
    assumptions: &[
        "names are tokens other than the attribute names themselves; values, paths and domains contain no ';' and no surrounding blanks, because the attribute form cannot carry them",
        "expiry instants are whole seconds in the years 1 to 9999",
    ],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub name: String,
    pub value: String,
    pub path: Option<String>,
    pub domain: Option<String>,
    pub expires: Option<i64>,
    pub max_age: Option<i64>,
    pub secure: bool,
    pub httponly: bool,
    pub same_site: Option<u8>,
}

impl Spec {
    pub fn site(&self) -> Option<SameSite> {
        self.same_site.map(|n| match n {
            0 => SameSite::None,
            1 => SameSite::Lax,
            _ => SameSite::Strict,
        })
    }

    pub fn build(&self) -> Cookie {
        let mut b = CookieBuilder::new();
        b.name_value(self.name.clone(), self.value.clone());
        if let Some(p) = &self.path {
            b.path(p.clone());
        }
        if let Some(d) = &self.domain {
            b.domain(d.clone());
        }
        if let Some(e) = self.expires {
            b.expires(Time::from_secs(e));
        }
        if let Some(m) = self.max_age {
            b.max_age(m as isize);
        }
        b.secure(self.secure);
        b.httponly(self.httponly);
        if let Some(s) = self.site() {
            b.same_site(s);
        }
        b.build()
    }

    /// The same through the other constructor (which has no SameSite).
    fn create(&self) -> Cookie {
        Cookie::create(self.name.clone(), self.value.clone(), self.path.clone(), self.domain.clone(),
            self.expires.map(Time::from_secs), self.max_age.map(|m| m as isize), self.secure, self.httponly)
    }

    /// The same through any of the constructors: with the builder the setters are called in any order, some with other arguments before.
    fn built(&self, how: u32) -> Cookie {
        if how % 4 == 0 && self.same_site.is_none() {
            return self.create();
        }
        if how % 4 == 1 && self.attributes().is_empty() {
            return Cookie::new(self.name.clone(), self.value.clone());
        }
        if how % 4 == 2 {
            return self.build();
        }
        let bit = |n: u32| how >> n & 1 == 1;
        let mut b = CookieBuilder::new();
        for k in 0..8 {
            let k = (k * [1, 3, 5, 7][(how >> 2 & 3) as usize] + (how >> 4 & 7)) % 8;
            let twice = bit(8 + k);
            match k {
                0 => {
                    if twice {
                        b.name_value("other".into(), "x".into());
                    }
                    b.name_value(self.name.clone(), self.value.clone());
                }
                1 => if let Some(p) = &self.path {
                    if twice {
                        b.path("/other".into());
                    }
                    b.path(p.clone());
                }
                2 => if let Some(d) = &self.domain {
                    if twice {
                        b.domain("other".into());
                    }
                    b.domain(d.clone());
                }
                3 => if let Some(e) = self.expires {
                    if twice {
                        b.expires(Time::from_secs(0));
                    }
                    b.expires(Time::from_secs(e));
                }
                4 => if let Some(m) = self.max_age {
                    if twice {
                        b.max_age(7);
                    }
                    b.max_age(m as isize);
                }
                5 => if self.secure || twice {
                    if bit(16) {
                        b.secure(true);
                    }
                    b.secure(self.secure);
                }
                6 => if self.httponly || twice {
                    if bit(17) {
                        b.httponly(true);
                    }
                    b.httponly(self.httponly);
                }
                _ => if let Some(s) = self.site() {
                    if twice {
                        b.same_site(SameSite::Lax);
                    }
                    b.same_site(s);
                }
            }
        }
        let first = b.build();
        if bit(18) {
            // what the builder makes next does not touch what it has made
            let name = self.name.clone() + "2";
            b.name_value(name, String::new()).path("/2".into()).secure(!self.secure).httponly(!self.httponly);
            let _ = b.build();
        }
        first
    }

    /// What each attribute of the text must be, by lower-case attribute name.
    fn attributes(&self) -> BTreeMap<String, Option<String>> {
        let mut m = BTreeMap::new();
        let mut put = |k: &str, v: Option<String>| {
            m.insert(k.to_string(), v);
        };
        if let Some(p) = &self.path {
            put("Path", Some(p.clone()))
        }
        if let Some(d) = &self.domain {
            put("Domain", Some(d.clone()))
        }
        if let Some(e) = self.expires {
            put("Expires", Some(render(e, 1)))
        }
        if let Some(a) = self.max_age {
            put("Max-Age", Some(a.to_string()))
        }
        if self.secure {
            put("Secure", None)
        }
        if self.httponly {
            put("HttpOnly", None)
        }
        if let Some(s) = self.same_site {
            put("SameSite", Some(["None", "Lax", "Strict"][s as usize].to_string()))
        }
        m
    }

    /// Checks one Set-Cookie text against the attribute form.
    pub fn matches(&self, text: &str) -> Result<(), String> {
        let mut parts = text.split("; ");
        let first = parts.next().unwrap_or("");
        if first != format!("{}={}", self.name, self.value) {
            return Err(format!("{:?} starts with {:?}", text, first));
        }
        let mut got = BTreeMap::new();
        for p in parts {
            let (k, v) = match p.split_once('=') {
                Some((k, v)) => (k, Some(v.to_string())),
                None => (p, None),
            };
            if got.insert(k.to_string(), v).is_some() {
                return Err(format!("{:?} has {} twice", text, k));
            }
        }
        let lower = |m: BTreeMap<String, Option<String>>| m.into_iter().map(|(k, v)| (k.to_lowercase(), v)).collect::<BTreeMap<_, _>>();
        let (got, want) = (lower(got), lower(self.attributes()));
        if got != want {
            return Err(format!("{:?} has attributes {:?} instead of {:?}", text, got, want));
        }
        Ok(())
    }

    /// A Set-Cookie text as another server could write it: any attribute order, letter case, spacing.
    pub fn foreign(&self, order: u64, style: u8) -> String {
        let mut at: Vec<(String, Option<String>)> = self.attributes().into_iter().collect();
        let mut x = order;
        for i in (1..at.len()).rev() {
            let j = (x % (i as u64 + 1)) as usize;
            x = x.rotate_right(7).wrapping_mul(31);
            at.swap(i, j);
        }
        let mut s = format!("{}={}", self.name, self.value);
        for (k, v) in at {
            s.push_str(if style & 1 == 0 { "; " } else { ";" });
            s.push_str(&match style >> 1 & 3 {
                0 => k,
                1 => k.to_lowercase(),
                _ => k.to_uppercase(),
            });
            if let Some(v) = v {
                s.push('=');
                s.push_str(&v);
            }
        }
        s
    }
}

const RESERVED: &[&str] = &["path", "domain", "expires", "max-age", "secure", "httponly", "samesite"];

/// Values a Cookie header or a Set-Cookie attribute can carry.
pub fn plain_value() -> BoxedStrategy<String> {
    prop_oneof![
        4 => gen::over("abcXYZ0189!#$%&'()*+-./:<=>?@[]^_`{|}~", 0, 16),
        1 => gen::text(12).prop_map(|s| s.replace(';', "").trim().to_string()),
        1 => gen::few(&["", "=", "==", "a=b", "Path=/x", "secure", "HttpOnly", "\"quoted\"", "a,b", "max-age=1", "Expires"]),
    ].boxed()
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![3 => gen::over(gen::TOKEN, 1, 10), 1 => gen::few(&["a", "A", "sid", "__Host-id", "path2", "Secur", "$Version", "expire"])]
        .prop_map(|n| if RESERVED.contains(&n.to_lowercase().as_str()) { format!("x{}", n) } else { n }).boxed()
}

pub fn spec() -> BoxedStrategy<Spec> {
    let path = prop_oneof![2 => gen::over("/abAB01._-~%=", 0, 12), 1 => gen::few(&["/", "/a/b", ""])];
    let domain = gen::over("abc.example-01", 1, 14);
    let age = prop_oneof![2 => -2i64..100_000, 1 => any::<i64>(), 1 => Just(0i64)];
    (name(), plain_value(), option::of(path), option::of(domain), option::of(instant()), option::of(age), any::<bool>(), any::<bool>(), option::of(0u8..3))
        .prop_map(|(name, value, path, domain, expires, max_age, secure, httponly, same_site)| Spec { name, value, path, domain, expires, max_age, secure, httponly, same_site }).boxed()
}

fn case(specs: &Vec<(Spec, u32)>, cl: &mut Classes) -> Verdict {
    let r = guarded(|| -> Result<(), String> {
        let mut cookies = vec![];
        let mut resp = Response::success();
        for (s, how) in specs {
            let c = s.built(*how);
            s.matches(&c.to_string())?;
            resp.add_set_cookie(c.clone());
            cookies.push(c);
        }
        for (i, a) in specs.iter().enumerate() {
            for (j, b) in specs.iter().enumerate() {
                let (x, y) = (&cookies[i], &cookies[j]);
                for same in [*x == *y, *x == y, x == *y, !(*x != *y), !(*x != y), !(x != *y)] {
                    if same != (a.0 == b.0) {
                        return Err(format!("cookies {} and {} compare as {}", i, j, same));
                    }
                }
            }
        }
        let back = resp.read_set_cookies().map_err(|e| format!("reading back failed: {}", e))?;
        if back != cookies {
            return Err(format!("read back {:?} instead of {:?}", back, cookies));
        }
        let mut h = Header::new();
        for c in &cookies {
            h.add_set_cookie(c.clone());
        }
        let texts = h.vec("Set-Cookie").unwrap_or_default();
        if texts != cookies.iter().map(|c| c.to_string()).collect::<Vec<_>>() {
            return Err(format!("the header holds {:?}", texts));
        }
        Ok(())
    });
    cl.when(specs.len() > 1, "several-cookies");
    cl.when(specs.iter().any(|s| s.0.expires.is_some()), "with-expiry");
    cl.when(specs.iter().any(|s| s.0.value.contains('=')), "value-with-equals-sign");
    cl.when(specs.iter().any(|s| s.0.value.is_empty()), "empty-value");
    match r {
        Ok(Ok(())) => Verdict::Ok(specs.iter().any(|s| !s.0.attributes().is_empty())),
        Ok(Err(e)) | Err(e) => Verdict::Fail(e),
    }
}

fn foreign_case((specs, order, style): &(Vec<Spec>, u64, u8), cl: &mut Classes) -> Verdict {
    let r = guarded(|| -> Result<(), String> {
        let mut resp = Response::success();
        for s in specs {
            resp.add_header_str("Set-Cookie", &s.foreign(*order, *style));
        }
        let back = resp.read_set_cookies().map_err(|e| format!("reading failed: {}", e))?;
        let want: Vec<Cookie> = specs.iter().map(|s| s.build()).collect();
        if back != want {
            return Err(format!("{:?} read as {:?}", specs.iter().map(|s| s.foreign(*order, *style)).collect::<Vec<_>>(), back));
        }
        Ok(())
    });
    cl.when(style & 1 == 1, "foreign-without-blanks");
    match r {
        Ok(Ok(())) => Verdict::Ok(specs.iter().any(|s| s.attributes().len() >= 2)),
        Ok(Err(e)) | Err(e) => Verdict::Fail(e),
    }
}

fn run(ctx: &mut Ctx) {
    ctx.rule("At least one attribute is set (two for texts written by another server).");
    ctx.run("write-and-read", ctx.n(300_000, 8_000_000), vec((spec(), any::<u32>()), 1..5), case);
    ctx.run("together", ctx.n(2_400, 80_000), vec(vec(vec((spec(), any::<u32>()), 1..5), 1..8), 2..9), |l, cl| together(l, cl, case));
    ctx.run("foreign-text", ctx.n(120_000, 3_000_000), (vec(spec(), 1..4), any::<u64>(), 0u8..6), foreign_case);
}
