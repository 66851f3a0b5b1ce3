//! Result of one check: obligations with stable keys.
use crate::json::esc;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Ob {
    pub ok: bool,
    pub msg: String,
    pub site: String,
}

#[derive(Default)]
pub struct Rep {
    pub obs: BTreeMap<String, Ob>,
    pub stats: BTreeMap<String, i128>,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
}

impl Rep {
    /// record an obligation; one failure under a key is enough
    pub fn ob(&mut self, key: &str, ok: bool, msg: &str, site: &str) {
        let e = self.obs.entry(key.to_string());
        match e {
            std::collections::btree_map::Entry::Occupied(mut o) => {
                if !ok && o.get().ok {
                    o.insert(Ob { ok, msg: msg.into(), site: site.into() });
                }
            },
            std::collections::btree_map::Entry::Vacant(v) => {
                v.insert(Ob { ok, msg: msg.into(), site: site.into() });
            },
        }
    }
    pub fn fail(&mut self, key: &str, msg: &str, site: &str) {
        self.ob(key, false, msg, site);
    }
    pub fn stat(&mut self, k: &str, n: i128) {
        *self.stats.entry(k.into()).or_insert(0) += n;
    }
    pub fn print(&self) {
        let mut o = String::from("{\"obs\":[");
        for (i, (k, b)) in self.obs.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!(
                "\n{{\"key\":{},\"ok\":{},\"msg\":{},\"site\":{}}}",
                esc(k),
                b.ok,
                esc(&b.msg),
                esc(&b.site)
            ));
        }
        o.push_str("],\"stats\":{");
        for (i, (k, n)) in self.stats.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("{}:{}", esc(k), n));
        }
        let l = |v: &Vec<String>| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o.push_str(&format!("}},\"notes\":[{}],\"samples\":[{}]}}", l(&self.notes), l(&self.samples)));
        println!("{o}");
    }
}
