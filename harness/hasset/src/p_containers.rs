//! C12 indexed map, C13 chained reader, C14 name map, C15 name hashes.
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset_base::containers::indexed_map::entry::Entry;
use unreal_asset_base::containers::IndexedMap;
use unreal_asset_base::containers::{Chain, NameMap, SharedResource};
use unreal_asset_base::crc;
use unreal_asset_base::types::{FName, PackageIndex, PackageIndexTrait};
use vkit::*;

// ---------------------------------------------------------------------------------------- C12

type M = Vec<(usize, String, i64)>;

fn cmp_map(s: &mut Src, m: &IndexedMap<String, i64>, want: &M, what: &str) -> Res {
    ensure_eq!(s, m.len(), want.len(), "im-len", "{what}: len");
    ensure_eq!(s, m.is_empty(), want.is_empty(), "im-empty", "{what}: is_empty");
    let got: M = m.iter().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    ensure_eq!(s, got, *want, "im-iter", "{what}: iter");
    let got: M = (&*m).into_iter().rev().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    let rev: M = want.iter().rev().cloned().collect();
    ensure_eq!(s, got, rev, "im-rev", "{what}: reverse iteration");
    ensure_eq!(s, m.iter().len(), want.len(), "im-iterlen", "{what}: iterator length");
    let vals: Vec<i64> = m.values().copied().collect();
    ensure_eq!(s, vals, want.iter().map(|e| e.2).collect::<Vec<_>>(), "im-values", "{what}: values");
    let keys: Vec<String> = m.keys().cloned().collect();
    ensure_eq!(s, keys, want.iter().map(|e| e.1.clone()).collect::<Vec<_>>(), "im-keys", "{what}: keys");
    let mut by_key: M = m.iter_key().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    by_key.sort();
    let mut sorted = want.clone();
    sorted.sort();
    ensure_eq!(s, by_key, sorted, "im-iterkey", "{what}: iter_key as a set");
    for (i, k, v) in want {
        ensure_eq!(s, m.get_by_index(*i), Some(v), "im-get-index", "{what}: get_by_index({i})");
        ensure_eq!(s, m.get_by_key(k), Some(v), "im-get-key", "{what}: get_by_key({k})");
        ensure_eq!(s, m.get_by_key(k.as_str()), Some(v), "im-get-str", "{what}: get_by_key({k}) by str");
        ensure!(s, m.contains_index(*i) && m.contains_key(k), "im-contains", "{what}: contains {i} {k}");
    }
    let top = want.iter().map(|e| e.0).max().map_or(0, |e| e + 3);
    for i in 0..top {
        if !want.iter().any(|e| e.0 == i) {
            ensure!(s, m.get_by_index(i).is_none() && !m.contains_index(i), "im-absent-index", "{what}: absent index {i} found");
        }
    }
    Ok(())
}

/// take from either end in any order, asking for the length on the way, and beyond the end
fn walk<T: PartialEq + std::fmt::Debug + Clone>(s: &mut Src, mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, want: Vec<T>, what: &str) -> Res {
    let (mut a, mut b) = (0, want.len());
    for _ in 0..want.len() + 2 {
        ensure_eq!(s, it.len(), b - a, "im-walk-len", "{what}: length left");
        ensure_eq!(s, it.size_hint(), (b - a, Some(b - a)), "im-walk-hint", "{what}: size hint");
        let back = s.flag();
        let got = if back { it.next_back() } else { it.next() };
        let exp = if a == b {
            None
        } else if back {
            b -= 1;
            Some(want[b].clone())
        } else {
            a += 1;
            Some(want[a - 1].clone())
        };
        ensure_eq!(s, got, exp, "im-walk", "{what}: {} of {want:?}", if back { "next_back" } else { "next" });
    }
    Ok(())
}
fn walks(s: &mut Src, m: &mut IndexedMap<String, i64>, want: &M, what: &str) -> Res {
    let tri = |want: &M| want.clone();
    match s.below(8) {
        0 => walk(s, m.iter().map(|(i, k, v)| (i, k.clone(), *v)), tri(want), &format!("iter, {what}")),
        1 => walk(s, m.iter_mut().map(|(i, k, v)| (i, k.clone(), *v)), tri(want), &format!("iter_mut, {what}")),
        2 => walk(s, m.clone().into_iter(), tri(want), &format!("into_iter, {what}")),
        3 => walk(s, m.values().copied(), want.iter().map(|e| e.2).collect(), &format!("values, {what}")),
        4 => walk(s, m.values_mut().map(|e| *e), want.iter().map(|e| e.2).collect(), &format!("values_mut, {what}")),
        5 => walk(s, m.keys().cloned(), want.iter().map(|e| e.1.clone()).collect(), &format!("keys, {what}")),
        6 => {
            let k = s.below(want.len() + 1);
            let mut it = m.iter();
            for _ in 0..k {
                it.next();
            }
            let copy = it.clone();
            it.next();
            walk(s, copy.map(|(i, k, v)| (i, k.clone(), *v)), want[k..].to_vec(), &format!("cloned iter, {what}"))
        }
        _ => {
            let k = s.below(want.len() + 1);
            ensure_eq!(s, m.iter_key_mut().len(), want.len(), "im-walk-len", "iter_key_mut, {what}");
            let mut it = m.iter_key();
            for _ in 0..k {
                it.next();
            }
            ensure_eq!(s, it.len(), want.len() - k, "im-walk-len", "iter_key, {what}");
            let mut copy: M = it.clone().map(|(i, k, v)| (i, k.clone(), *v)).collect();
            let mut rest: M = it.map(|(i, k, v)| (i, k.clone(), *v)).collect();
            copy.sort();
            rest.sort();
            ensure_eq!(s, copy, rest, "im-walk", "cloned iter_key, {what}");
            Ok(())
        }
    }
}

fn indexed_map(s: &mut Src) -> Res {
    let pool = s.urange(1, 12);
    let mut m: IndexedMap<String, i64> = if s.flag() { IndexedMap::new() } else { IndexedMap::with_capacity(s.below(9)) };
    let mut want: M = vec![];
    let mut trace = vec![];
    let steps = s.urange(1, 40);
    let mut removed = false;
    for _ in 0..steps {
        let k = format!("k{}", s.below(pool));
        let v = s.range(-50, 50);
        let at = want.iter().position(|e| e.1 == k);
        match s.weighted(&[6, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2, 2]) {
            0 => {
                trace.push(format!("insert {k}={v}"));
                m.insert(k.clone(), v);
                match at {
                    Some(p) => want[p].2 = v,
                    None => {
                        let idx = m.iter().find(|e| *e.1 == k).map(|e| e.0);
                        let last = want.last().map(|e| e.0);
                        let Some(idx) = idx else { return fail("im-insert", format!("inserted {k} is absent: {trace:?}")) };
                        if removed {
                            ensure!(s, last.map_or(true, |l| idx > l), "im-index", "new index {idx} not behind {last:?}: {trace:?}");
                        } else {
                            ensure_eq!(s, idx, want.len(), "im-index", "index of a new entry: {trace:?}");
                        }
                        want.push((idx, k, v));
                    }
                }
            }
            1 => {
                trace.push(format!("remove_by_key {k}"));
                let got = m.remove_by_key(&k);
                let exp = at.map(|p| want.remove(p));
                removed |= exp.is_some();
                ensure_eq!(s, got, exp, "im-remove-key", "{trace:?}");
            }
            2 => {
                let i = s.below(14);
                trace.push(format!("remove_by_index {i}"));
                let got = m.remove_by_index(i);
                let p = want.iter().position(|e| e.0 == i);
                let exp = p.map(|p| want.remove(p));
                removed |= exp.is_some();
                ensure_eq!(s, got, exp, "im-remove-index", "{trace:?}");
            }
            3 => {
                trace.push(format!("entry {k} or_insert {v}"));
                let kind = s.draw(3);
                let e = m.entry(k.clone());
                ensure_eq!(s, *e.key(), k, "im-entry-key", "{trace:?}");
                let got = match kind {
                    0 => *e.or_insert(v),
                    1 => *e.or_insert_with(|| v),
                    _ => *e.or_insert_with_key(|_| v),
                };
                ensure_eq!(s, got, at.map_or(v, |p| want[p].2), "im-entry", "{trace:?}");
                if at.is_none() {
                    let Some(idx) = m.iter().find(|e| *e.1 == k).map(|e| e.0) else { return fail("im-insert", format!("{k} is absent: {trace:?}")) };
                    want.push((idx, k, v));
                }
            }
            4 => {
                trace.push(format!("entry {k} edit"));
                *m.entry(k.clone()).or_insert(0) = v;
                match at {
                    Some(p) => want[p].2 = v,
                    None => {
                        let Some(idx) = m.iter().find(|e| *e.1 == k).map(|e| e.0) else { return fail("im-insert", format!("{k} is absent: {trace:?}")) };
                        want.push((idx, k, v));
                    }
                }
            }
            5 => {
                trace.push(format!("set {k} by key"));
                let got = m.get_by_key_mut(&k).map(|e| *e = v);
                ensure_eq!(s, got.is_some(), at.is_some(), "im-mut-key", "{trace:?}");
                if let Some(p) = at {
                    want[p].2 = v;
                }
            }
            6 => {
                let i = s.below(14);
                trace.push(format!("set {i} by index"));
                let got = m.get_by_index_mut(i).map(|e| *e = v);
                let p = want.iter().position(|e| e.0 == i);
                ensure_eq!(s, got.is_some(), p.is_some(), "im-mut-index", "{trace:?}");
                if let Some(p) = p {
                    want[p].2 = v;
                }
            }
            7 => {
                trace.push("clone".into());
                let c = m.clone();
                ensure!(s, c == m, "im-clone-eq", "clone differs: {trace:?}");
                if let Some(e) = want.first() {
                    // changes of the clone do not reach the original
                    let mut c2 = m.clone();
                    c2.insert(e.1.clone(), e.2.wrapping_add(1));
                    ensure!(s, c2 != m, "im-eq-value", "maps with different values are equal: {trace:?}");
                    c2.remove_by_key(&e.1);
                    ensure!(s, c2 != m, "im-eq-len", "maps of different size are equal: {trace:?}");
                }
                m = c;
            }
            8 => {
                trace.push("values_mut".into());
                for x in m.values_mut() {
                    *x += 1;
                }
                want.iter_mut().for_each(|e| e.2 += 1);
            }
            9 => {
                trace.push("iter_mut".into());
                if s.flag() {
                    for (i, _, x) in m.iter_mut() {
                        *x += i as i64;
                    }
                } else {
                    for (i, _, x) in m.iter_key_mut() {
                        *x += i as i64;
                    }
                }
                want.iter_mut().for_each(|e| e.2 += e.0 as i64);
            }
            10 => {
                trace.push("collect".into());
                let all: Vec<(usize, String, i64)> = m.clone().into_iter().collect();
                ensure_eq!(s, all, want, "im-into-iter", "{trace:?}");
                m = all.into_iter().map(|(_, k, v)| (k, v)).collect();
                want = want.into_iter().enumerate().map(|(i, e)| (i, e.1, e.2)).collect();
                removed = false;
            }
            11 => {
                trace.push(format!("walk {k}"));
                walks(s, &mut m, &want, &format!("{trace:?}"))?;
            }
            12 => {
                let how = s.below(5);
                trace.push(format!("entry {k}, way {how}"));
                match (m.entry(k.clone()), at) {
                    (Entry::Occupied(mut e), Some(p)) => {
                        ensure_eq!(s, *e.key(), k, "im-occupied-key", "{trace:?}");
                        ensure_eq!(s, *e.get(), want[p].2, "im-occupied-get", "{trace:?}");
                        match how {
                            0 => {
                                *e.get_mut() = v;
                                ensure_eq!(s, *e.get(), v, "im-occupied-get", "{trace:?}");
                                want[p].2 = v;
                            }
                            1 => {
                                *e.into_mut() = v;
                                want[p].2 = v;
                            }
                            2 => {
                                let w = want.remove(p);
                                removed = true;
                                ensure_eq!(s, e.remove(), w.2, "im-occupied-remove", "{trace:?}");
                            }
                            3 => {
                                let w = want.remove(p);
                                removed = true;
                                ensure_eq!(s, e.remove_entry(), w, "im-occupied-remove", "{trace:?}");
                            }
                            _ => {}
                        }
                    }
                    (Entry::Vacant(e), None) => {
                        ensure_eq!(s, *e.key(), k, "im-vacant-key", "{trace:?}");
                        if how < 2 {
                            *e.insert(v) += 1;
                            let Some(idx) = m.iter().find(|e| *e.1 == k).map(|e| e.0) else { return fail("im-insert", format!("{k} is absent: {trace:?}")) };
                            want.push((idx, k, v + 1));
                        } else {
                            ensure_eq!(s, e.into_key(), k, "im-vacant-key", "{trace:?}");
                        }
                    }
                    (_, p) => return fail("im-entry-kind", format!("{k} is there: {}; {trace:?}", p.is_some())),
                }
            }
            _ => {
                trace.push(format!("extend {k}={v}"));
                m.extend([(k.clone(), v)]);
                match at {
                    Some(p) => want[p].2 = v,
                    None => {
                        let Some(idx) = m.iter().find(|e| *e.1 == k).map(|e| e.0) else { return fail("im-insert", format!("{k} is absent: {trace:?}")) };
                        want.push((idx, k, v));
                    }
                }
            }
        }
        cmp_map(s, &m, &want, &format!("{trace:?}"))?;
        for i in 0..pool {
            let k = format!("k{i}");
            let p = want.iter().any(|e| e.1 == k);
            ensure_eq!(s, m.contains_key(&k), p, "im-contains", "{k} after {trace:?}");
        }
    }
    s.nontrivial();
    s.note(format!("{trace:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C13

fn chain(s: &mut Src) -> Res {
    let n1 = s.size(60);
    let a = s.bytes(n1);
    let two = s.chance(4, 5);
    let n2 = if two { s.size(60) } else { 0 };
    let b = s.bytes(n2);
    let mut all = a.clone();
    all.extend_from_slice(&b);
    let mut c1 = Cursor::new(a.clone());
    let mut c2 = Cursor::new(b.clone());
    // positions of the parts at construction do not matter
    c1.set_position(s.below(a.len() + 1) as u64);
    c2.set_position(s.below(b.len() + 1) as u64);
    let mut c = Chain::new(c1, two.then_some(c2));
    let mut want = Cursor::new(all.clone());
    let total = all.len() as i64;
    let mut trace = vec![format!("{}+{}", a.len(), if two { b.len().to_string() } else { "none".into() })];
    let mut crossed = false;
    for _ in 0..s.urange(1, 25) {
        match s.draw(6) {
            0 => {
                let p = s.below(all.len() + 4) as u64;
                trace.push(format!("start {p}"));
                ensure_eq!(s, c.seek(SeekFrom::Start(p)).ok(), want.seek(SeekFrom::Start(p)).ok(), "ch-seek", "{trace:?}");
            }
            1 => {
                let o = s.range(-total - 3, 3);
                trace.push(format!("end {o}"));
                ensure_eq!(s, c.seek(SeekFrom::End(o)).ok(), want.seek(SeekFrom::End(o)).ok(), "ch-seek", "{trace:?}");
            }
            2 => {
                let o = s.range(-total - 3, total + 3);
                trace.push(format!("cur {o}"));
                ensure_eq!(s, c.seek(SeekFrom::Current(o)).ok(), want.seek(SeekFrom::Current(o)).ok(), "ch-seek", "{trace:?}");
            }
            3 => {
                let n = s.below(all.len() + 4);
                trace.push(format!("read_exact {n}"));
                let left = all.len().saturating_sub(want.position() as usize);
                if n > left {
                    // a short read is an error; afterwards the position is unspecified
                    let mut x = vec![0; n];
                    ensure!(s, c.read_exact(&mut x).is_err(), "ch-short", "read over the end succeeds: {trace:?}");
                    let p = s.below(all.len() + 1) as u64;
                    trace.push(format!("start {p}"));
                    ensure_eq!(s, c.seek(SeekFrom::Start(p)).ok(), want.seek(SeekFrom::Start(p)).ok(), "ch-seek", "{trace:?}");
                } else {
                    let p = want.position() as usize;
                    crossed |= p < a.len() && p + n > a.len();
                    let (mut x, mut y) = (vec![0; n], vec![0; n]);
                    c.read_exact(&mut x).map_err(|e| Fail { sig: "ch-read".into(), msg: format!("{e}: {trace:?}") })?;
                    want.read_exact(&mut y).unwrap();
                    ensure_eq!(s, x, y, "ch-read", "{trace:?}");
                }
            }
            4 => {
                let n = s.below(all.len() + 4);
                trace.push(format!("read {n}"));
                let mut x = vec![0; n];
                let r = c.read(&mut x).map_err(|e| Fail { sig: "ch-read".into(), msg: format!("{e}: {trace:?}") })?;
                let left = all.len().saturating_sub(want.position() as usize);
                ensure!(s, r <= n.min(left) && (r > 0 || n.min(left) == 0), "ch-read-len", "read {r} of {n}, {left} left: {trace:?}");
                let p = want.position() as usize;
                if r > 0 {
                    ensure_eq!(s, x[..r], all[p..p + r], "ch-read", "{trace:?}");
                    want.set_position((p + r) as u64);
                }
                crossed |= p < a.len() && p + r > a.len();
            }
            _ => {
                trace.push("read_to_end".into());
                let (mut x, mut y) = (vec![], vec![]);
                c.read_to_end(&mut x).map_err(|e| Fail { sig: "ch-read".into(), msg: format!("{e}: {trace:?}") })?;
                want.read_to_end(&mut y).unwrap();
                ensure_eq!(s, x, y, "ch-read-end", "{trace:?}");
            }
        }
        ensure_eq!(s, c.stream_position().ok(), Some(want.position()), "ch-pos", "{trace:?}");
    }
    if crossed {
        s.nontrivial();
    }
    s.note(format!("{trace:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C14

fn name_map(s: &mut Src) -> Res {
    let pool: Vec<String> = (0..s.urange(1, 10)).map(|i| if s.flag() { format!("n{i}") } else { s.text(8) }).collect();
    let mut names: Vec<String> = vec![];
    let mut trace = vec![];
    let mut nm: SharedResource<NameMap> = if s.flag() {
        NameMap::new()
    } else {
        let batch: Vec<String> = (0..s.size(6)).map(|_| s.pick(&pool).clone()).collect();
        trace.push(format!("batch {batch:?}"));
        for n in &batch {
            if !names.contains(n) {
                names.push(n.clone());
            }
        }
        NameMap::from_name_batch(&batch)
    };
    let mut made: Vec<(FName, usize, i32)> = vec![];
    for _ in 0..s.urange(1, 30) {
        let n = s.pick(&pool).clone();
        match s.weighted(&[4, 3, 2, 2, 1, 1, 1]) {
            0 => {
                trace.push(format!("add {n:?}"));
                let i = nm.get_mut().add_name_reference(n.clone(), false);
                if names.contains(&n) {
                    ensure!(s, names.get(i as usize) == Some(&n), "nm-add", "add of a known name gives {i}: {trace:?}");
                } else {
                    ensure_eq!(s, i as usize, names.len(), "nm-add", "add of a new name: {trace:?}");
                    names.push(n);
                }
            }
            1 => {
                let num = s.i32v();
                trace.push(format!("fname {n:?} {num}"));
                let f = if num == 0 { nm.get_mut().add_fname(&n) } else { nm.get_mut().add_fname_with_number(&n, num) };
                let i = match &f {
                    FName::Backed { index, .. } => *index as usize,
                    _ => return fail("nm-backed", format!("add_fname gives an unbacked name: {trace:?}")),
                };
                if names.contains(&n) {
                    ensure!(s, names.get(i) == Some(&n), "nm-fname", "known name gets index {i}: {trace:?}");
                } else {
                    ensure_eq!(s, i, names.len(), "nm-fname", "new name: {trace:?}");
                    names.push(n.clone());
                }
                ensure!(s, f == n.as_str() && f == *n.as_str() && f.get_owned_content() == n && f.get_number() == num, "nm-fname-content", "{f:?}: {trace:?}");
                made.push((f, i, num));
            }
            2 => {
                trace.push(format!("dup {n:?}"));
                let i = nm.get_mut().add_name_reference(n.clone(), true);
                ensure_eq!(s, i as usize, names.len(), "nm-dup", "forced duplicate: {trace:?}");
                names.push(n);
            }
            3 if !names.is_empty() => {
                let i = s.below(names.len());
                trace.push(format!("rename {i} to {n:?}"));
                *nm.get_mut().get_name_reference_mut(i as i32) = n.clone();
                names[i] = n;
            }
            4 if !names.is_empty() => {
                let i = s.below(names.len());
                let num = s.i32v();
                let f = nm.get_ref().create_fname(i as i32, num);
                ensure_eq!(s, f.get_number(), num, "nm-number", "{trace:?}");
                made.push((f, i, num));
            }
            5 => {
                trace.push("clone_resource".into());
                let mut other = nm.clone_resource();
                ensure!(s, *other.get_ref() == *nm.get_ref(), "nm-clone", "clone differs: {trace:?}");
                other.get_mut().add_name_reference("only in the clone".into(), true);
                ensure!(s, *other.get_ref() != *nm.get_ref(), "nm-clone-eq", "maps of different size are equal: {trace:?}");
                let f = other.get_mut().add_fname("only in the clone");
                ensure!(s, f == "only in the clone", "nm-clone-self", "names of the clone resolve elsewhere: {trace:?}");
            }
            _ => {
                let i = s.range(-3, names.len() as i64 + 3) as i32;
                let r = guarded(|| nm.get_ref().get_owned_name(i));
                if i >= 0 && (i as usize) < names.len() {
                    ensure!(s, r.as_ref() == Ok(&names[i as usize]), "nm-get", "{i}: {r:?}: {trace:?}");
                } else {
                    ensure!(s, r.is_ok(), "nm-get-panic", "{i}: {r:?}: {trace:?}");
                }
            }
        }
        ensure_eq!(s, nm.get_ref().get_name_map_index_list().to_vec(), names, "nm-list", "{trace:?}");
        ensure_eq!(s, nm.get_ref().is_empty(), names.is_empty(), "nm-empty", "{trace:?}");
        for n in pool.iter().chain(names.iter()) {
            let f = nm.get_ref().search_name_reference(n);
            match f {
                Some(i) => {
                    ensure!(s, names.get(i as usize) == Some(n), "nm-search", "{n:?} found at {i}: {trace:?}");
                }
                None => {
                    ensure!(s, !names.contains(n), "nm-search", "{n:?} not found: {trace:?}");
                }
            }
        }
        for (f, i, num) in &made {
            ensure!(s, f == names[*i].as_str() && f.get_number() == *num, "nm-stable", "{f:?} is not name {i} number {num}: {trace:?}");
        }
    }
    for (f, i, num) in &made {
        for (g, j, num2) in &made {
            ensure_eq!(s, f == g, i == j && num == num2, "nm-eq", "{f:?} == {g:?}");
            ensure_eq!(s, f.eq_content(g), names[*i] == names[*j], "nm-eq-content", "{f:?} {g:?}");
        }
        let t = names[*i].clone();
        let cut: String = t.chars().skip(t.chars().count() / 2).collect();
        ensure!(s, f.ends_with(&cut) && !f.ends_with(format!("{t}~")), "nm-ends", "{f:?} ends_with {cut:?}");
        let d = FName::new_dummy(t.clone(), *num);
        ensure!(s, d.eq_content(f) && d == t.as_str() && d.get_number() == *num, "nm-dummy", "{d:?}");
    }
    s.nontrivial();
    s.note(format!("{trace:?}"));
    Ok(())
}

fn package_index(s: &mut Src) -> Res {
    let i = s.i32v();
    let what = format!("{i}");
    let p = PackageIndex::new(i);
    ensure_eq!(s, p.is_import(), i < 0, "pi-import", "{what}");
    ensure_eq!(s, p.is_export(), i > 0, "pi-export", "{what}");
    ensure_eq!(s, p.to_string(), i.to_string(), "pi-text", "{what}");
    let r = guarded(|| PackageIndex::from_import(i));
    match r {
        Ok(Ok(p)) => {
            ensure!(s, i >= 0 && p.index == -i - 1 && p.is_import(), "pi-from-import", "{what}: {p:?}");
        }
        Ok(Err(_)) => {
            ensure!(s, i < 0, "pi-from-import", "{what} refused");
        }
        Err(e) => return fail("pi-panic", format!("{what}: {e:?}")),
    }
    if i != i32::MAX {
        let r = guarded(|| PackageIndex::from_export(i));
        match r {
            Ok(Ok(p)) => {
                ensure!(s, i >= 0 && p.index == i + 1 && p.is_export(), "pi-from-export", "{what}: {p:?}");
            }
            Ok(Err(_)) => {
                ensure!(s, i < 0, "pi-from-export", "{what} refused");
            }
            Err(e) => return fail("pi-panic", format!("{what}: {e:?}")),
        }
    }
    s.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------- C15

/// MSB-first CRC table, byte swapped lookups as in FCrc::MemCrc_DEPRECATED's CRCTable_DEPRECATED
fn deprecated_step(hash: u32, byte: u8) -> u32 {
    // table entry i of poly 0x04C11DB7, MSB first
    let mut c = (((hash ^ byte as u32) & 0xff) as u32) << 24;
    for _ in 0..8 {
        c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
    }
    ((hash >> 8) & 0x00ff_ffff) ^ c
}

fn crc32_step(crc: u32, byte: u8) -> u32 {
    let mut c = crc ^ byte as u32;
    for _ in 0..8 {
        c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
    }
    c
}

pub fn name_hash(t: &str) -> u32 {
    let wide = !t.is_ascii();
    let mut a = 0u32;
    let mut b = !0u32;
    for u in t.encode_utf16() {
        let up = if (97..=122).contains(&u) { u - 32 } else { u };
        a = deprecated_step(a, up as u8);
        if wide {
            a = deprecated_step(a, (up >> 8) as u8);
        }
        b = crc32_step(b, u as u8);
        b = crc32_step(b, (u >> 8) as u8);
        b = crc32_step(b, 0);
        b = crc32_step(b, 0);
    }
    (a & 0xffff) | ((!b & 0xffff) << 16)
}

fn hashes(s: &mut Src) -> Res {
    let t = match s.draw(4) {
        0 => s.ascii_ident(40),
        1 => s.ascii_text(90),
        2 => s.text(30),
        _ => {
            let n = s.urange(1, 120);
            s.ascii_ident(n)
        }
    };
    let got = guarded(|| crc::generate_hash(&t));
    ensure!(s, got == Ok(name_hash(&t)), "crc", "{t:?}: {got:x?} expected {:x}", name_hash(&t));
    if t.is_ascii() {
        let got = guarded(|| crc::cityhash64_to_lower(&t));
        for v in [t.to_ascii_lowercase(), t.to_ascii_uppercase()] {
            let other = guarded(|| crc::cityhash64_to_lower(&v));
            ensure!(s, got == other && got.is_ok(), "city-case", "{t:?}: {got:x?}, {v:?}: {other:x?}");
        }
        let other = guarded(|| crc::cityhash64_to_lower(&format!("{t}x")));
        ensure!(s, got != other, "city-differs", "{t:?} and {t}x have the same hash {got:x?}");
    }
    if !t.is_empty() {
        s.nontrivial();
    }
    s.note(&t);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            rule: "Histories of 1-40 operations (insert, extend, entry API, removal by key/index, mutation through every mutable accessor, clone, collect) on a map with up to 12 distinct keys; after every operation every accessor and iterator is compared with a vector model. All cases are non-trivial.",
            assumptions: &["only insertion order and stability of indices are assumed about index values after a removal"],
            facets: vec![Facet { name: "indexed-map", quick: 480_000, thorough: 1500000, run: indexed_map }],
        },
        Property {
            id: "C13",
            rule: "Histories of 1-25 reads and seeks on a chain of two (or one) byte sources of 0-60 bytes each, compared step by step with one contiguous source. Non-trivial: some read crosses the seam.",
            assumptions: &["position after a failed read_exact is unspecified"],
            facets: vec![Facet { name: "chain", quick: 2_000_000, thorough: 5000000, run: chain }],
        },
        Property {
            id: "C14",
            rule: "Histories of 1-30 name table operations (add, forced duplicate, in-place rename, FName creation, cloning, lookups in and out of range) over up to 10 names; every lookup, FName content, number and equality is compared with a vector model after each step. Package indices over the whole 32-bit range. All cases are non-trivial.",
            assumptions: &[],
            facets: vec![
                Facet { name: "name-map", quick: 640_000, thorough: 2000000, run: name_map },
                Facet { name: "package-index", quick: 400_000, thorough: 1000000, run: package_index },
            ],
        },
        Property {
            id: "C15",
            rule: "Strings (identifiers up to 120 characters, printable ASCII, text from all planes) hashed by the library and by bit-by-bit CRCs written from the published polynomials; the case-insensitive 64-bit hash is only checked for case insensitivity and separation. Non-trivial: non-empty.",
            assumptions: &["the lower-cased CityHash is compared for ASCII text only"],
            facets: vec![Facet { name: "hashes", quick: 2_400_000, thorough: 8000000, run: hashes }],
        },
    ]
}
