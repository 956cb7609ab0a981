//! C01: histories of mutations.
use crate::*;

pub fn apply<T: Subject>(set: &mut EnumSet<T>, model: &mut Model, op: &MutOp, cov: &mut Cov) -> R {
    fn v2<T: Subject>(v: &[u16]) -> Vec<T> {
        v.iter().filter_map(|x| var(*x)).collect()
    }
    match op {
        MutOp::Insert(i) => {
            if let Some(v) = var::<T>(*i) {
                let r = set.insert(v);
                let e = model.insert(v.d());
                cov.label(if e { "insert new" } else { "insert present" });
                ensure!(r == e, "insert({}) returned {}, expected {}", v.d(), r, e);
            }
        }
        MutOp::Remove(i) => {
            if let Some(v) = var::<T>(*i) {
                let r = set.remove(v);
                let e = model.remove(&v.d());
                cov.label(if e { "remove present" } else { "remove absent" });
                ensure!(r == e, "remove({}) returned {}, expected {}", v.d(), r, e);
            }
        }
        MutOp::InsertAll(s) => {
            let (s, m) = set_of::<T>(s);
            set.insert_all(s);
            model.extend(m);
            cov.label("insert_all");
        }
        MutOp::RemoveAll(s) => {
            let (s, m) = set_of::<T>(s);
            set.remove_all(s);
            model.retain(|x| !m.contains(x));
            cov.label("remove_all");
        }
        MutOp::Clear => {
            set.clear();
            model.clear();
            cov.label("clear");
        }
        MutOp::ExtendVars(v) => {
            let v = v2::<T>(v);
            model.extend(v.iter().map(|x| x.d()));
            set.extend(v);
            cov.label("extend variants");
        }
        MutOp::ExtendSets(v) => {
            let mut sets = Vec::new();
            for s in v {
                let (s, m) = set_of::<T>(s);
                sets.push(s);
                model.extend(m);
            }
            set.extend(sets);
            cov.label("extend sets");
        }
        MutOp::Or(r) | MutOp::And(r) | MutOp::Xor(r) | MutOp::Sub(r) => {
            let m: Model = match r {
                Rhs::Var(i) => var::<T>(*i).iter().map(|x| x.d()).collect(),
                Rhs::Set(s) | Rhs::Conv(s) => s.model(T::INFO.discr),
                Rhs::Same => model.clone(),
            };
            macro_rules! go {
                ($op:tt) => {
                    match r {
                        Rhs::Var(i) => match var::<T>(*i) {
                            Some(v) => *set $op v,
                            None => return Ok(()),
                        },
                        Rhs::Set(_) => *set $op canon::<T>(&m),
                        Rhs::Conv(_) => *set $op Conv(canon::<T>(&m)),
                        Rhs::Same => { let c = *set; *set $op c },
                    }
                };
            }
            match op {
                MutOp::Or(_) => {
                    go!(|=);
                    model.extend(m);
                    cov.label("|=");
                }
                MutOp::And(_) => {
                    go!(&=);
                    model.retain(|x| m.contains(x));
                    cov.label("&=");
                }
                MutOp::Xor(_) => {
                    go!(^=);
                    *model = model.symmetric_difference(&m).copied().collect();
                    cov.label("^=");
                }
                _ => {
                    go!(-=);
                    model.retain(|x| !m.contains(x));
                    cov.label("-=");
                }
            }
        }
    }
    Ok(())
}

pub fn run<T: Subject>(c: &MutCase, cov: &mut Cov) -> R {
    let (mut set, mut model) = set_of::<T>(&c.init);
    expect_members("initial set", &set, &model)?;
    let mut changes = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let before = set;
        let before_model = model.clone();
        no_panic("operation", || apply(&mut set, &mut model, op, cov))
            .and_then(|x| x)
            .map_err(|e| format!("step {} {:?}: {}", i, op, e))?;
        expect_at(format_args!("step {} {:?}", i, op), &set, &model)?;
        if model != before_model {
            changes += 1;
            // a set is a value: the copy taken before is not affected
            expect_at(format_args!("copy taken before step {}", i), &before, &before_model)?;
        }
    }
    cov.nontrivial = changes >= 2;
    Ok(())
}
