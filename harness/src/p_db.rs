//! Properties of the in-memory database.
use crate::model::*;
use crate::Jobs;
use kdbx_rs::database::{Database, Entry, Field, Group, Otp};
use uuid::Uuid;

type R = Result<(), String>;

pub fn jobs(p: &str, j: &mut Jobs) {
    match p {
        "C14" => c14(j),
        "C15" => c15(j),
        "C16" => c16(j),
        "C17" => c17(j),
        _ => {}
    }
}
fn check(b: bool, what: impl AsRef<str>) -> R {
    crate::evaluated(what.as_ref(), &[]);
    if b {
        Ok(())
    } else {
        Err(what.as_ref().to_string())
    }
}

// ---------------------------------------------------------------- C14

fn entries<'a>(g: &'a MGroup, out: &mut Vec<&'a MEntry>) {
    out.extend(&g.entries);
    for c in &g.groups {
        entries(c, out);
    }
}
fn groups<'a>(g: &'a MGroup, out: &mut Vec<&'a MGroup>) {
    for c in &g.groups {
        out.push(c);
        groups(c, out);
    }
}
fn mark_entry(g: &mut MGroup, pred: &dyn Fn(&Uuid) -> bool, done: &mut bool) {
    for e in &mut g.entries {
        if !*done && pred(&e.uuid) {
            *done = true;
            e.fields.push(MField { key: "mark".into(), val: Some("1".into()), prot: false });
        }
    }
    for c in &mut g.groups {
        mark_entry(c, pred, done);
    }
}
fn mark_group(g: &mut MGroup, pred: &dyn Fn(&Uuid) -> bool, done: &mut bool) {
    for c in &mut g.groups {
        if !*done && pred(&c.uuid) {
            *done = true;
            c.name.push_str(" mark");
        }
        mark_group(c, pred, done);
    }
}
/// a tree where empty and large groups, and shared UUIDs, occur
fn tree(r: &mut Rng, depth: usize, pool: &[Uuid]) -> MGroup {
    let ne = *r.pick(&[0usize, 0, 1, 2, 3, 5]);
    let ng = if depth > 0 { *r.pick(&[0usize, 1, 2, 2, 3, 4]) } else { 0 };
    let id = |r: &mut Rng| if !pool.is_empty() && r.chance(2) { *r.pick(pool) } else { uuid(r) };
    MGroup {
        uuid: id(r),
        name: group_name(r),
        times: times(r),
        entries: (0..ne)
            .map(|_| {
                let mut e = entry(r, 1);
                e.uuid = id(r);
                e
            })
            .collect(),
        groups: (0..ng).map(|_| tree(r, depth - 1, pool)).collect(),
    }
}
fn c14(j: &mut Jobs) {
    let seed = j.seed;
    // wide and deep trees: each entry and group alone
    for (i, what) in [2usize, 3, 5].into_iter().enumerate() {
        j.add(format!("wide-{}", i), move || {
            let mut r = Rng::new(seed + i as u64);
            let m = wide(&mut r, what).root;
            let lib = m.lib();
            let mut l2 = lib.clone();
            let (mut es, mut gs) = (vec![], vec![]);
            entries(&m, &mut es);
            groups(&m, &mut gs);
            for e in &es {
                diff("entry found", &Some(e.uuid), &lib.find_entry(|x| x.uuid() == e.uuid).map(|x| x.uuid()))?;
                diff("entry found mutably", &Some(e.uuid), &l2.find_entry_mut(|x| x.uuid() == e.uuid).map(|x| x.uuid()))?;
            }
            for g in &gs {
                diff("group found", &Some(g.uuid), &lib.find_group(|x| x.uuid() == g.uuid).map(|x| x.uuid()))?;
                diff("group found mutably", &Some(g.uuid), &l2.find_group_mut(|x| x.uuid() == g.uuid).map(|x| x.uuid()))?;
            }
            check(lib.find_entry(|_| false).is_none() && lib.find_group(|_| false).is_none(), "something found that is not there")?;
            let sorted = |mut v: Vec<Uuid>| {
                v.sort();
                v
            };
            let want = sorted(es.iter().map(|e| e.uuid).collect());
            diff("entries visited", &want, &sorted(lib.recursive_entries().map(|e| e.uuid()).collect()))?;
            diff("entries visited mutably", &want, &sorted(l2.recursive_entries_mut().map(|e| e.uuid()).collect()))?;
            diff("groups visited", &sorted(gs.iter().map(|e| e.uuid).collect()), &sorted(lib.recursive_groups().map(|e| e.uuid()).collect()))?;
            diff("tree after searching", &lib, &l2)
        });
    }
    for i in 0..j.n(250) {
        j.add(format!("search-{}", i), move || {
            let mut r = Rng::new(seed * 149 + i);
            let mut pool: Vec<Uuid> = if i % 3 == 0 { (0..4).map(|_| uuid(&mut r)).collect() } else { vec![] };
            if i % 6 == 0 {
                pool = (0..12).map(|_| near(pool[0], &mut r)).collect();
            }
            let depth = 1 + r.below(4);
            let m = tree(&mut r, depth, &pool);
            let lib = m.lib();
            let (mut es, mut gs) = (vec![], vec![]);
            entries(&m, &mut es);
            groups(&m, &mut gs);
            let mut preds: Vec<Vec<Uuid>> = vec![vec![], vec![uuid(&mut r)]];
            preds.extend(es.iter().take(30).map(|e| vec![e.uuid]));
            preds.extend(gs.iter().take(30).map(|g| vec![g.uuid]));
            let mut all: Vec<Uuid> = es.iter().map(|e| e.uuid).chain(gs.iter().map(|g| g.uuid)).collect();
            preds.push(all.clone());
            all.push(m.uuid);
            preds.push(all.clone());
            preds.push(vec![m.uuid]);
            for _ in 0..6 {
                let n = r.below(4) + 1;
                preds.push((0..n).map(|_| *r.pick(&all)).collect());
            }
            for p in preds {
                let has = |u: &Uuid| p.contains(u);
                // entries
                let want = es.iter().find(|e| has(&e.uuid)).map(|e| (*e).clone());
                let got = lib.find_entry(|e| has(&e.uuid())).map(MEntry::exact);
                diff("entry found", &want, &got)?;
                let mut l2 = lib.clone();
                let got = l2.find_entry_mut(|e| has(&e.uuid())).map(|e| MEntry::exact(e));
                diff("entry found mutably", &want, &got)?;
                diff("tree after a search", &lib, &l2)?;
                if let Some(e) = l2.find_entry_mut(|e| has(&e.uuid())) {
                    e.add_field(Field::new("mark", "1"));
                }
                let mut m2 = m.clone();
                mark_entry(&mut m2, &has, &mut false);
                diff("tree after changing the entry found", &m2, &MGroup::exact(&l2))?;
                // groups
                let want = gs.iter().find(|g| has(&g.uuid)).map(|g| (*g).clone());
                let got = lib.find_group(|g| has(&g.uuid())).map(MGroup::exact);
                diff("group found", &want, &got)?;
                let mut l2 = lib.clone();
                let got = l2.find_group_mut(|g| has(&g.uuid())).map(|g| MGroup::exact(g));
                diff("group found mutably", &want, &got)?;
                diff("tree after a search", &lib, &l2)?;
                if let Some(g) = l2.find_group_mut(|g| has(&g.uuid())) {
                    let n = format!("{} mark", g.name());
                    g.set_name(n);
                }
                let mut m2 = m.clone();
                mark_group(&mut m2, &has, &mut false);
                diff("tree after changing the group found", &m2, &MGroup::exact(&l2))?;
                // through the database
                let mut d = Database::default();
                d.replace_root(lib.clone());
                diff("entry found in the database", &lib.find_entry(|e| has(&e.uuid())), &d.find_entry(|e| has(&e.uuid())))?;
                diff("group found in the database", &lib.find_group(|e| has(&e.uuid())), &d.find_group(|e| has(&e.uuid())))?;
                let a = lib.find_entry(|e| has(&e.uuid())).cloned();
                diff("entry found mutably in the database", &a, &d.find_entry_mut(|e| has(&e.uuid())).map(|e| e.clone()))?;
                let a = lib.find_group(|e| has(&e.uuid())).cloned();
                diff("group found mutably in the database", &a, &d.find_group_mut(|e| has(&e.uuid())).map(|e| e.clone()))?;
            }
            // recursive iteration: each exactly once, in any order
            let key = |e: &MEntry| format!("{:?}", e);
            let mut want: Vec<String> = es.iter().map(|e| key(e)).collect();
            let mut got: Vec<String> = lib.recursive_entries().map(|e| key(&MEntry::exact(e))).collect();
            want.sort();
            got.sort();
            diff("entries visited", &want, &got)?;
            let mut l2 = lib.clone();
            let mut got: Vec<String> = l2.recursive_entries_mut().map(|e| key(&MEntry::exact(e))).collect();
            got.sort();
            diff("entries visited mutably", &want, &got)?;
            diff("tree after visiting", &lib, &l2)?;
            let mut want: Vec<String> = gs.iter().map(|e| format!("{:?}", e)).collect();
            let mut got: Vec<String> = lib.recursive_groups().map(|e| format!("{:?}", MGroup::exact(e))).collect();
            want.sort();
            got.sort();
            diff("groups visited", &want, &got)
        });
    }
}

// ---------------------------------------------------------------- C15

fn at<'a>(g: &'a mut MGroup, path: &[usize]) -> &'a mut MGroup {
    match path {
        [] => g,
        [i, rest @ ..] => at(&mut g.groups[*i], rest),
    }
}
fn lib_at<'a>(g: &'a mut Group, path: &[usize]) -> &'a mut Group {
    match path {
        [] => g,
        [i, rest @ ..] => lib_at(g.groups_mut().nth(*i).unwrap(), rest),
    }
}
fn path(g: &MGroup, r: &mut Rng) -> Vec<usize> {
    let mut p = vec![];
    let mut g = g;
    while !g.groups.is_empty() && !r.chance(3) {
        let i = r.below(g.groups.len());
        p.push(i);
        g = &g.groups[i];
    }
    p
}
fn counts(m: &MGroup, g: &Group) -> R {
    diff("entry_count", &m.entries.len(), &g.entry_count())?;
    diff("group_count", &m.groups.len(), &g.group_count())?;
    for (a, b) in m.groups.iter().zip(g.groups()) {
        counts(a, b)?;
    }
    Ok(())
}
fn c15(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(200) {
        j.add(format!("edit-{}", i), move || {
            let mut r = Rng::new(seed * 151 + i);
            let mut pool: Vec<Uuid> = (0..5).map(|_| uuid(&mut r)).collect();
            if i % 2 == 0 {
                pool = (0..12).map(|_| near(pool[0], &mut r)).collect();
            }
            let depth = r.below(4);
            let mut m = tree(&mut r, depth, &pool);
            let mut d = Database::default();
            d.replace_root(m.lib());
            diff("root after replacing it", &m, &MGroup::exact(d.root()))?;
            let (n, desc) = (d.name().to_string(), d.description().to_string());
            for step in 0..40 {
                let p = path(&m, &mut r);
                let what;
                match r.below(8) {
                    0 => {
                        let mut e = entry(&mut r, 1);
                        if r.chance(2) {
                            e.uuid = *r.pick(&pool);
                        }
                        // also one that is there already, unchanged
                        let there = &at(&mut m, &p).entries;
                        if !there.is_empty() && r.chance(3) {
                            e = r.pick(there).clone();
                        }
                        lib_at(d.root_mut(), &p).add_entry(e.lib());
                        at(&mut m, &p).entries.push(e);
                        what = "add_entry";
                    }
                    1 => {
                        let mut g = tree(&mut r, 1, &pool);
                        let there = &at(&mut m, &p).groups;
                        if !there.is_empty() && r.chance(3) {
                            g = r.pick(there).clone();
                        }
                        lib_at(d.root_mut(), &p).add_group(g.lib());
                        at(&mut m, &p).groups.push(g);
                        what = "add_group";
                    }
                    2 | 3 => {
                        let g = at(&mut m, &p);
                        let id = if !g.entries.is_empty() && !r.chance(4) { r.pick(&g.entries).uuid } else if r.chance(2) { *r.pick(&pool) } else { g.uuid };
                        let want = g.entries.iter().position(|e| e.uuid == id).map(|k| g.entries.remove(k));
                        let got = lib_at(d.root_mut(), &p).remove_entry(id);
                        diff("entry removed", &want, &got.as_ref().map(MEntry::exact))?;
                        what = "remove_entry";
                    }
                    4 | 5 => {
                        let g = at(&mut m, &p);
                        let id = if !g.groups.is_empty() && !r.chance(4) { r.pick(&g.groups).uuid } else if r.chance(2) { *r.pick(&pool) } else { g.uuid };
                        let want = g.groups.iter().position(|e| e.uuid == id).map(|k| g.groups.remove(k));
                        let got = lib_at(d.root_mut(), &p).remove_group(id);
                        diff("group removed", &want, &got.as_ref().map(MGroup::exact))?;
                        what = "remove_group";
                    }
                    6 => {
                        // move an entry
                        let g = at(&mut m, &p);
                        if g.entries.is_empty() {
                            continue;
                        }
                        let id = r.pick(&g.entries).uuid;
                        let k = g.entries.iter().position(|e| e.uuid == id).unwrap();
                        let e = g.entries.remove(k);
                        let q = path(&m, &mut r);
                        at(&mut m, &q).entries.push(e);
                        let e = lib_at(d.root_mut(), &p).remove_entry(id).ok_or("entry not removed")?;
                        lib_at(d.root_mut(), &q).add_entry(e);
                        what = "move";
                    }
                    _ => {
                        if r.chance(2) {
                            let e = entry(&mut r, 0);
                            d.add_entry(e.lib());
                            m.entries.push(e);
                        } else {
                            let g = tree(&mut r, 0, &pool);
                            d.add_group(g.lib());
                            m.groups.push(g);
                        }
                        what = "Database::add";
                    }
                }
                diff(&format!("tree after {} (step {})", what, step), &m, &MGroup::exact(d.root()))?;
                counts(&m, d.root())?;
            }
            check(d.name() == n && d.description() == desc, "name or description changed")
        });
    }
    // documents with several groups at the top, or none
    for n in 0..4usize {
        j.add(format!("replace-root-{}", n), move || {
            let mut r = Rng::new(seed + n as u64);
            let mut d = Database::default();
            for _ in 0..3 {
                let doc = format!(
                    "<KeePassFile><Root>{}</Root></KeePassFile>",
                    "<Group><UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID><Name>old</Name></Group>".repeat(n)
                );
                if let Ok(x) = kdbx_rs::xml::parse_xml(doc.as_bytes(), &mut kdbx_rs::utils::NullStreamCipher) {
                    d = x;
                }
                let m = tree(&mut r, 1, &[]);
                d.replace_root(m.lib());
                diff("root after replacing it", &m, &MGroup::exact(d.root()))?;
                let mut only = Database::default();
                only.replace_root(m.lib());
                let write = |d: &Database| -> Result<String, String> {
                    let mut o = vec![];
                    kdbx_rs::xml::write_xml(&mut o, d, &mut kdbx_rs::utils::NullStreamCipher).map_err(|e| e.to_string())?;
                    let s = String::from_utf8_lossy(&o).into_owned();
                    Ok(s[s.find("<Root").ok_or("no root")?..].to_string())
                };
                diff("groups after replacing the root", &write(&only)?, &write(&d)?)?;
            }
            Ok(())
        });
    }
    j.add("large", move || {
        let mut r = Rng::new(seed);
        let mut g = Group::new("g");
        let mut ids: Vec<Uuid> = (0..400).map(|_| uuid(&mut r)).collect();
        for k in 0..128 {
            ids.push(Uuid::from_u128(ids[0].as_u128() ^ (1 << k)));
        }
        ids.extend([Uuid::nil(), Uuid::max()]);
        ids.sort();
        ids.dedup();
        for k in (1..ids.len()).rev() {
            ids.swap(k, r.below(k + 1));
        }
        for u in &ids {
            let mut e = Entry::default();
            e.set_uuid(*u);
            g.add_entry(e);
            let mut c = Group::new("c");
            c.set_uuid(*u);
            g.add_group(c);
        }
        let mut left = ids.clone();
        while left.len() > 1 {
            let k = r.below(left.len());
            let u = left.remove(k);
            check(g.remove_entry(u).map(|e| e.uuid()) == Some(u), "wrong entry removed")?;
            check(g.remove_group(u).map(|e| e.uuid()) == Some(u), "wrong group removed")?;
            check(g.remove_entry(u).is_none(), "entry removed twice")?;
            check(g.remove_group(u).is_none(), "group removed twice")?;
            diff("entries left", &left, &g.entries().map(|e| e.uuid()).collect())?;
            diff("groups left", &left, &g.groups().map(|e| e.uuid()).collect())?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C16

fn c16(j: &mut Jobs) {
    let texts = ["a", "", "secret é", "  ", "True"];
    for start in 0..7usize {
        j.add(format!("field-{}", start), move || {
            let first = || -> (Field, MField) {
                let f = |v: Option<&str>, prot| MField { key: "k".into(), val: v.map(|s| s.to_string()), prot };
                match start {
                    0 => (Field::new("k", "v"), f(Some("v"), false)),
                    1 => (Field::new_protected("k", "v"), f(Some("v"), true)),
                    2 => (Field::new("k", ""), f(Some(""), false)),
                    3 => (Field::new_protected("k", ""), f(Some(""), true)),
                    4 => {
                        let mut x = Field::default();
                        x.set_key("k");
                        (x, f(None, false))
                    }
                    5 => {
                        let mut e = Entry::default();
                        e.set_password("v");
                        let mut x = e.find("Password").unwrap().clone();
                        x.set_key("k");
                        (x, f(Some("v"), true))
                    }
                    _ => {
                        let mut e = Entry::default();
                        e.set_title("v");
                        let mut x = e.find("Title").unwrap().clone();
                        x.set_key("k");
                        (x, f(Some("v"), false))
                    }
                }
            };
            // all sequences of up to five operations out of eight
            for n in 0..=5u32 {
                for code in 0..8u32.pow(n) {
                    let (mut f, mut m) = first();
                    diff("new field", &m, &MField::exact(&f))?;
                    let mut c = code;
                    let mut trace = String::new();
                    for _ in 0..n {
                        let op = c % 8;
                        c /= 8;
                        match op {
                            0..=2 => {
                                let t = texts[op as usize];
                                f.set_value(t);
                                m.val = Some(t.into());
                                trace.push_str(&format!(" set_value({:?})", t));
                            }
                            3 => {
                                f.clear();
                                m.val = None;
                                trace.push_str(" clear");
                            }
                            4 => {
                                f.set_protected(true);
                                m.prot = true;
                                trace.push_str(" protect");
                            }
                            5 => {
                                f.set_protected(false);
                                m.prot = false;
                                trace.push_str(" unprotect");
                            }
                            6 => {
                                f.set_key(" other Key ");
                                m.key = " other Key ".into();
                                trace.push_str(" set_key");
                            }
                            _ => {
                                f = f.clone();
                                trace.push_str(" clone");
                            }
                        }
                        diff(&format!("field {} after{}", start, trace), &m, &MField::exact(&f))?;
                    }
                }
            }
            Ok(())
        });
    }
    let seed = j.seed;
    for i in 0..j.n(120) {
        j.add(format!("values-{}", i), move || {
            let mut r = Rng::new(seed * 159 + i);
            let keys = ["", " ", "k", "Title", "UserName", "Password", "password", "URL", "Notes", "otp", "KPRPC JSON", "\0"];
            let mut m = MField { key: r.pick(&keys).to_string(), val: Some(any_text(&mut r)), prot: r.chance(2) };
            let mut f = match (m.prot, m.val.as_deref().unwrap()) {
                (true, v) => Field::new_protected(&m.key, v),
                (false, v) => Field::new(&m.key, v),
            };
            let mut trace = format!("{:?}", m);
            for _ in 0..60 {
                diff(&format!("field after {}", trace), &m, &MField::exact(&f))?;
                trace = format!("{:?}", m);
                match r.below(6) {
                    0 => {
                        m.prot = r.chance(2);
                        f.set_protected(m.prot);
                        trace.push_str(" set_protected");
                    }
                    1 => {
                        m.val = None;
                        f.clear();
                        trace.push_str(" clear");
                    }
                    2 => {
                        m.key = if r.chance(2) { any_text(&mut r) } else { r.pick(&keys).to_string() };
                        f.set_key(&m.key);
                        trace.push_str(" set_key");
                    }
                    _ => {
                        // also the value it has, and that value with something more
                        let v = match r.below(8) {
                            0 => m.val.clone().unwrap_or_default(),
                            3 => m.val.clone().unwrap_or_default().to_uppercase(),
                            4 => m.val.clone().unwrap_or_default().to_lowercase(),
                            5 => m.val.clone().unwrap_or_default().trim().to_string(),
                            1 => format!("{}{}", m.val.clone().unwrap_or_default(), r.pick(&["\n", " ", "\0", "x"])),
                            2 => m.key.clone(),
                            _ => any_text(&mut r),
                        };
                        f.set_value(&v);
                        m.val = Some(v);
                        trace.push_str(" set_value");
                    }
                }
            }
            diff(&format!("field after {}", trace), &m, &MField::exact(&f))
        });
    }
    // the same while the field is inside an entry and through a saved document
    for i in 0..j.n(60) {
        j.add(format!("saved-{}", i), move || {
            let mut r = Rng::new(seed * 157 + i);
            let mut f = field(&mut r).lib();
            let mut e = Entry::default();
            let key = f.key().to_string();
            for _ in 0..r.below(5) {
                match r.below(4) {
                    0 => f.clear(),
                    1 => f.set_protected(true),
                    2 => f.set_protected(false),
                    _ => {
                        let t = text(&mut r);
                        f.set_value(&t);
                        diff("value", &Some(t.as_str()), &f.value())?;
                    }
                }
            }
            let m = MField::exact(&f);
            e.add_field(f);
            {
                let g = e.find_mut(&key).ok_or("field not found")?;
                diff("field in an entry", &m, &MField::exact(g))?;
                g.clear();
                check(g.value().is_none() && g.protected() == m.prot && g.key() == key, "clearing inside an entry")?;
                g.set_value("back");
                check(g.value() == Some("back") && g.protected() == m.prot && g.key() == key, "setting inside an entry")?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C17

fn c17(j: &mut Jobs) {
    let seed = j.seed;
    const KEYS: [&str; 5] = ["Title", "UserName", "Password", "URL", "otp"];
    fn get(e: &Entry, k: usize) -> Option<String> {
        match k {
            0 => e.title().map(|s| s.to_string()),
            1 => e.username().map(|s| s.to_string()),
            2 => e.password().map(|s| s.to_string()),
            3 => e.url().map(|s| s.to_string()),
            _ => e.find("otp").and_then(|f| f.value()).map(|s| s.to_string()),
        }
    }
    for i in 0..j.n(250) {
        j.add(format!("entry-{}", i), move || {
            let mut r = Rng::new(seed * 163 + i);
            let mut m = entry(&mut r, 2);
            let mut e = m.lib();
            for step in 0..40 {
                let k = r.below(5);
                let mut what = String::new();
                match r.below(10) {
                    0..=3 => {
                        let v = any_text(&mut r);
                        what = format!("setting {} to {:?}", KEYS[k], v);
                        let (mut secret, mut per, mut dig) = (String::new(), 0, 0);
                        match k {
                            0 => e.set_title(&v),
                            1 => e.set_username(v.clone()),
                            2 => e.set_password(&v),
                            3 => e.set_url(v.as_str()),
                            _ => {
                                secret = (0..r.below(40)).map(|_| *r.pick(&['A', 'Z', '2', '7', 'Q'])).collect::<String>() + r.pick(&["", "=", "====", "======"]);
                                per = r.next() as u32;
                                dig = r.below(20) as u32;
                                e.set_otp(Otp::new(secret.as_str(), per, dig));
                            }
                        }
                        if k == 4 {
                            let o = e.otp().ok_or("no OTP after setting one")?;
                            diff("OTP secret", &Some(secret.as_str()), &o.secret())?;
                            diff("OTP period", &Some(per), &o.period())?;
                            diff("OTP digits", &Some(dig), &o.digits())?;
                        } else {
                            diff(&what, &Some(v.clone()), &get(&e, k))?;
                        }
                        // the field it went to
                        let f = e.fields().find(|f| f.key() == KEYS[k]).ok_or("field missing")?;
                        if k == 2 || k == 4 {
                            check(f.protected(), format!("{} is not protected", KEYS[k]))?;
                        }
                        let f = MField::exact(f);
                        match m.fields.iter().position(|x| x.key == KEYS[k]) {
                            Some(p) => m.fields[p] = f,
                            None => {
                                // wherever the new field was put
                                let p = e.fields().position(|x| x.key() == KEYS[k]).unwrap();
                                m.fields.insert(p.min(m.fields.len()), f)
                            }
                        }
                    }
                    4 => {
                        let mut f = field(&mut r);
                        match r.below(6) {
                            0 => f.key = KEYS[k].to_lowercase(),
                            1 => f.key = KEYS[k].to_uppercase(),
                            2 => f.key = format!("{} ", KEYS[k]),
                            3 => f.key = KEYS[k][..2].to_string(),
                            4 => f.key = format!("{}x", KEYS[k]),
                            _ => {}
                        }
                        e.add_field(f.lib());
                        m.fields.push(f);
                        what.push_str("add_field");
                    }
                    5 => {
                        let key = if r.chance(3) || m.fields.is_empty() { KEYS[k].to_string() } else { r.pick(&m.fields).key.clone() };
                        e.remove_field(&key);
                        m.fields.retain(|f| f.key != key);
                        what = format!("remove_field({:?})", key);
                    }
                    6 => {
                        e.new_version();
                        let mut v = m.clone();
                        v.history.clear();
                        m.history.push(v);
                        what.push_str("new_version");
                    }
                    7 => {
                        if m.history.is_empty() {
                            continue;
                        }
                        let n = r.below(m.history.len());
                        diff("history by index", &Some(m.history[n].clone()), &e.history().get(n).map(MEntry::exact))?;
                        diff("history by []", &m.history[n], &MEntry::exact(&e.history()[n]))?;
                        let got = e.history_mut().remove(n);
                        diff("removed version", &m.history.remove(n), &MEntry::exact(&got))?;
                        what.push_str("history.remove");
                    }
                    8 => {
                        let v = entry(&mut r, 0);
                        e.history_mut().push(v.lib());
                        m.history.push(v);
                        let n = r.below(m.history.len());
                        e.history_mut().get_mut(n).ok_or("history get_mut")?.add_field(Field::new("h", "x"));
                        m.history[n].fields.push(MField { key: "h".into(), val: Some("x".into()), prot: false });
                        what.push_str("history.push");
                    }
                    _ => {
                        let id = uuid(&mut r);
                        e.set_uuid(id);
                        m.uuid = id;
                        let t = times(&mut r);
                        t.put(e.times_mut());
                        m.times = t;
                        for f in e.fields_mut() {
                            if f.key() == "h" {
                                f.set_value("y");
                            }
                        }
                        for f in &mut m.fields {
                            if f.key == "h" {
                                f.val = Some("y".into());
                            }
                        }
                        what.push_str("set_uuid");
                    }
                }
                diff(&format!("entry after {} (step {})", what, step), &m, &MEntry::exact(&e))?;
                check(e.history().len() == m.history.len() && e.history().is_empty() == m.history.is_empty(), "history length")?;
                check(e.history().get(m.history.len()).is_none(), "history past its end")?;
                for k in 0..5 {
                    let want = m.fields.iter().find(|f| f.key == KEYS[k]).and_then(|f| f.val.clone());
                    diff(&format!("{} after {}", KEYS[k], what), &want, &get(&e, k))?;
                    diff("presence of an OTP", &m.fields.iter().find(|f| f.key == "otp").and_then(|f| f.val.clone()).is_some(), &e.otp().is_some())?;
                }
                for f in &m.fields {
                    let first = m.fields.iter().find(|x| x.key == f.key).cloned();
                    diff("find", &first, &e.find(&f.key).map(MField::exact))?;
                    diff("find_mut", &first, &e.find_mut(&f.key).map(|f| MField::exact(f)))?;
                }
                check(e.find("no such key").is_none(), "a field nobody added")?;
                check(e.find("title").is_none() || m.fields.iter().any(|f| f.key == "title"), "keys are not compared exactly")?;
            }
            Ok(())
        });
    }
    j.add("many", move || {
        let mut r = Rng::new(seed);
        let mut m = entry(&mut r, 0);
        m.fields = (0..300).map(|i| MField { key: format!("k{}", i % 150), val: Some(format!("v{}", i)), prot: i % 2 == 0 }).collect();
        let mut e = m.lib();
        for i in 0..150 {
            diff("field found", &Some(format!("v{}", i)), &e.find(&format!("k{}", i)).and_then(|f| f.value()).map(|s| s.to_string()))?;
        }
        for i in 0..300 {
            e.set_title(format!("t{}", i));
            e.new_version();
            check(e.history().len() == i + 1, format!("{} versions after {}", e.history().len(), i + 1))?;
        }
        for i in 0..300 {
            diff("title of a version", &Some(format!("t{}", i)), &e.history()[i].title().map(|s| s.to_string()))?;
            check(e.history()[i].history().is_empty(), "a version has versions")?;
        }
        for i in (0..150).rev() {
            e.remove_field(&format!("k{}", i));
            m.fields.retain(|f| f.key != format!("k{}", i));
            diff("fields left", &m.fields, &e.fields().filter(|f| f.key() != "Title").map(MField::exact).collect())?;
        }
        let long = "x".repeat(70_000);
        e.set_password(&long);
        e.set_url(&long);
        check(e.password() == Some(&long) && e.url() == Some(&long), "long values")
    });
    j.add("otp", move || {
        let mut r = Rng::new(seed);
        for p in [0u32, 1, 29, 30, 60, 255, 256, 65536, i32::MAX as u32, u32::MAX] {
            for d in [0u32, 1, 6, 8, 10, 99, u32::MAX] {
                for s in ["", "A", "JBSWY3DPEHPK3PXP", "JBSWY3DPEHPK3PX=", "MFRGGZDFMZTWQ2LK====", "234567", "secret", "period", "digits"] {
                    let o = Otp::new(s, p, d);
                    check(o.secret() == Some(s) && o.period() == Some(p) && o.digits() == Some(d), format!("OTP {:?} {} {} reads back as {:?} {:?} {:?}", s, p, d, o.secret(), o.period(), o.digits()))?;
                    let mut e = Entry::default();
                    e.set_title("t");
                    e.set_otp(o);
                    let o = e.otp().ok_or("no OTP")?;
                    check(o.secret() == Some(s) && o.period() == Some(p) && o.digits() == Some(d), "OTP in an entry reads back differently")?;
                    check(e.find("otp").unwrap().protected(), "OTP not protected")?;
                }
            }
        }
        for _ in 0..200 {
            // parameters in any order
            let secret: String = (0..16).map(|_| *r.pick(&['A', 'B', '7', '2'])).collect();
            let (p, d) = (r.next() as u32, r.next() as u32);
            let mut parts = vec![format!("secret={}", secret), format!("period={}", p), format!("digits={}", d), "issuer=x".into(), "algorithm=SHA1".into(), "xsecret=no".into(), "secrets=no".into(), "perio=5".into()];
            for i in (1..parts.len()).rev() {
                parts.swap(i, r.below(i + 1));
            }
            let mut e = Entry::default();
            e.add_field(Field::new_protected("otp", &format!("otpauth://totp/a:b?{}", parts.join("&"))));
            let o = e.otp().ok_or("no OTP")?;
            check(o.secret() == Some(&secret[..]) && o.period() == Some(p) && o.digits() == Some(d), format!("OTP parameters in the order {:?}", parts))?;
        }
        let mut e = Entry::default();
        e.add_field(Field::new_protected("otp", "otpauth://totp/a:b?secret=ABC"));
        let o = e.otp().ok_or("no OTP")?;
        check(o.secret() == Some("ABC") && o.period().is_none() && o.digits().is_none(), "missing OTP parameters")
    });
}
