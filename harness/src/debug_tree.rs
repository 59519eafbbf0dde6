//! What `{:?}` shows of a value, read back so that it can be compared without the order of its maps and sets.

#[derive(Debug, Clone, PartialEq)]
pub enum Tree {
    /// number, name or quoted text
    Atom(String),
    /// `Name{..}`, `Name(..)`, `[..]` with `key: value` or bare members
    Group(String, char, Vec<(Option<Tree>, Tree)>),
}

struct Reader<'a> {
    t: &'a [u8],
    i: usize,
    /// fields that are left out
    skip: &'a [&'a str],
}

impl Reader<'_> {
    fn blanks(&mut self) {
        while self.i < self.t.len() && self.t[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn quoted(&mut self, q: u8) -> String {
        let from = self.i;
        self.i += 1;
        while self.t[self.i] != q {
            self.i += if self.t[self.i] == b'\\' { 2 } else { 1 };
        }
        self.i += 1;
        String::from_utf8_lossy(&self.t[from..self.i]).into_owned()
    }
    fn node(&mut self) -> Tree {
        self.blanks();
        if let q @ (b'"' | b'\'') = self.t[self.i] {
            return Tree::Atom(self.quoted(q));
        }
        let from = self.i;
        while self.i < self.t.len() && !b",:{}[]()".contains(&self.t[self.i]) {
            self.i += 1;
        }
        let name = String::from_utf8_lossy(&self.t[from..self.i]).trim().to_string();
        let Some(open @ (b'{' | b'[' | b'(')) = self.t.get(self.i).copied() else {
            return Tree::Atom(name);
        };
        self.i += 1;
        let mut items = vec![];
        loop {
            self.blanks();
            match self.t[self.i] {
                b'}' | b']' | b')' => {
                    self.i += 1;
                    break;
                }
                b',' => self.i += 1,
                _ => {
                    let a = self.node();
                    self.blanks();
                    if self.t.get(self.i) == Some(&b':') {
                        self.i += 1;
                        let v = self.node();
                        if !matches!(&a, Tree::Atom(n) if self.skip.contains(&n.as_str())) {
                            items.push((Some(a), v));
                        }
                    } else {
                        items.push((None, a));
                    }
                }
            }
        }
        if open == b'{' {
            items.sort_by_cached_key(|(k, v)| match k {
                Some(k) => format!("{k:?}"),
                None => format!("{v:?}"),
            });
        }
        Tree::Group(name, open as char, items)
    }
}

pub fn read(text: &str, skip: &[&str]) -> Tree {
    let t = text.replace("PhantomData<()>", "PhantomData");
    Reader { t: t.as_bytes(), i: 0, skip }.node()
}

fn close(a: &str, b: &str) -> bool {
    a == b
        || match (a.parse::<f64>(), b.parse::<f64>()) {
            (Ok(x), Ok(y)) => x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs()).max(1e-3),
            _ => false,
        }
}

pub fn same(a: &Tree, b: &Tree, path: &str) -> Result<(), String> {
    match (a, b) {
        (Tree::Atom(x), Tree::Atom(y)) => {
            let ok = if x.starts_with('"') {
                x == y
            } else {
                let (p, q): (Vec<_>, Vec<_>) = (x.split(' ').collect(), y.split(' ').collect());
                p.len() == q.len() && p.iter().zip(&q).all(|(p, q)| close(p, q))
            };
            if ok {
                Ok(())
            } else {
                Err(format!("{path}: got {x}, expected {y}"))
            }
        }
        (Tree::Group(n, o, x), Tree::Group(m, p, y)) if n == m && o == p && x.len() == y.len() => {
            for (i, ((k, v), (l, w))) in x.iter().zip(y).enumerate() {
                let at = match k {
                    Some(Tree::Atom(k)) => format!("{path}.{k}"),
                    _ => format!("{path}[{i}]"),
                };
                match (k, l) {
                    (Some(k), Some(l)) => same(k, l, &at)?,
                    (None, None) => {}
                    _ => return Err(format!("{at}: a member of another form")),
                }
                same(v, w, &at)?;
            }
            Ok(())
        }
        _ => Err(format!("{path}: got {}, expected {}", brief(a), brief(b))),
    }
}

fn brief(t: &Tree) -> String {
    let s = format!("{t:?}");
    s.chars().take(400).collect()
}
