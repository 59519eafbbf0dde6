use crate::engine::*;
use crate::ensure;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use geo::Point;
use multimap::MultiMap;
use vatsim_parser::adaptation::locations::{Fix, Locations, NDB, VOR};
use vatsim_parser::airway::parse_airway_txt;

/// A fix of the table: its name and its position in millionths of a degree.
type Node = (String, i64, i64);

#[derive(Clone, Debug)]
pub struct Nb {
    to: Node,
    level: Option<u32>,
    permitted: bool,
}
#[derive(Clone, Debug)]
pub struct Line {
    at: Node,
    airway: String,
    kind: &'static str,
    nb: [Option<Nb>; 2],
}

#[derive(Clone, Debug)]
struct Seg {
    permitted: bool,
    level: Option<u32>,
}

#[derive(Default)]
pub struct Table {
    pub lines: Vec<Line>,
    /// airway -> fix -> neighbour -> segment, in first-mention order of fixes
    adj: BTreeMap<String, BTreeMap<Node, BTreeMap<Node, Seg>>>,
    nodes: BTreeSet<Node>,
}

fn micro(v: i64) -> String {
    let a = v.unsigned_abs();
    format!("{}{}.{:06}", if v < 0 { "-" } else { "" }, a / 1_000_000, a % 1_000_000)
}
fn point(n: &Node) -> Point {
    Point::new(n.2 as f64 / 1e6, n.1 as f64 / 1e6)
}

impl Table {
    fn build(lines: Vec<Line>) -> Table {
        let mut t = Table { lines, ..Default::default() };
        for l in &t.lines {
            for nb in l.nb.iter().flatten() {
                t.nodes.insert(l.at.clone());
                t.nodes.insert(nb.to.clone());
                let awy = t.adj.entry(l.airway.clone()).or_default();
                let mut put = |a: &Node, b: &Node, permitted: bool| {
                    let e = awy
                        .entry(a.clone())
                        .or_default()
                        .entry(b.clone())
                        .or_insert(Seg { permitted: false, level: None });
                    e.permitted |= permitted;
                    e.level = match (e.level, nb.level) {
                        (Some(x), Some(y)) => Some(x.min(y)),
                        (x, y) => x.or(y),
                    };
                };
                put(&l.at, &nb.to, nb.permitted);
                put(&nb.to, &l.at, false);
            }
        }
        t
    }
    pub fn render(&self, s: &mut Src) -> String {
        let nl = if s.chance(1, 4) { "\r\n" } else { "\n" };
        let mut out = String::new();
        if s.chance(1, 6) {
            out.push_str(s.pick(&["; comment", "// comment"]));
            out.push_str(nl);
        }
        for l in &self.lines {
            out += &format!("{}\t{}\t{}\t14\t{}\t{}", l.at.0, micro(l.at.1), micro(l.at.2), l.airway, l.kind);
            for nb in &l.nb {
                match nb {
                    None => out += if s.chance(1, 4) { "\t0\t0\t0\t0\tN" } else { "\t\t\t\t\tN" },
                    Some(n) => {
                        let lvl = match n.level {
                            Some(l) => {
                                if s.chance(1, 5) {
                                    format!("{l}")
                                } else {
                                    format!("{l:05}")
                                }
                            }
                            None => s.pick(&["NESTB", ""]).to_string(),
                        };
                        out += &format!(
                            "\t{}\t{}\t{}\t{lvl}\t{}",
                            n.to.0,
                            micro(n.to.1),
                            micro(n.to.2),
                            if n.permitted { "Y" } else { "N" }
                        );
                    }
                }
            }
            out += nl;
            if s.chance(1, 12) {
                out += nl;
            }
            if s.chance(1, 16) {
                out += "; X\t1.000000\t1.000000\t14\tY1\tB";
                out += nl;
            }
        }
        out
    }
}

fn node(s: &mut Src) -> Node {
    let name = match s.weighted(&[4, 2]) {
        0 => s.pick(&["A", "B", "C", "D", "ALB", "RID", "GMH"]).to_string(),
        _ => s.word(1, 5, "ABC12"),
    };
    // positions of equal names are far apart, a hair apart, or mirrored
    let (lat, lng) = match s.weighted(&[4, 2, 2, 1]) {
        0 => (48_000_000 + s.int(0, 3) * 250_000, 11_000_000 + s.int(0, 3) * 250_000),
        1 => (48_000_000 + s.int(0, 2), 11_000_000 + s.int(0, 2)),
        2 => (s.int(-1, 1) * 123_456, s.int(-1, 1) * 123_456),
        _ => (s.int(-90_000_000, 90_000_000), s.int(-180_000_000, 180_000_000)),
    };
    (name, lat, lng)
}

fn level(s: &mut Src) -> Option<u32> {
    match s.weighted(&[3, 4, 1]) {
        0 => None,
        1 => Some(*s.pick(&[1500, 5000, 9500, 19500, 24500])),
        _ if s.chance(1, 3) => Some(0),
        _ => Some(if s.chance(1, 6) { s.int(0, 999_999_999) } else { s.int(0, 99_999) } as u32),
    }
}

const AIRWAYS: [&str; 6] = ["Y101", "T5", "L603", "N858", "A", "1"];

/// Airways as published: chains or rings, each fix listing what lies before and after it.
fn chains(s: &mut Src) -> Vec<Line> {
    let mut lines = vec![];
    let n = s.us(1, 4);
    let pool: Vec<Node> = s.vec(2, 12, node);
    for i in 0..n {
        let mut path: Vec<Node> = vec![];
        for _ in 0..s.us(2, 8) {
            let p = if s.chance(3, 4) { s.pick(&pool).clone() } else { node(s) };
            if !path.contains(&p) {
                path.push(p);
            }
        }
        if path.len() < 2 {
            continue;
        }
        let ring = path.len() > 2 && s.chance(1, 6);
        let airway = AIRWAYS[i].to_string();
        let kind = *s.pick(&["B", "H", "L", ""]);
        let len = path.len();
        let one_way = s.chance(1, 4);
        let mut own = vec![];
        for k in 0..len {
            let prev = if k > 0 { Some(k - 1) } else { ring.then_some(len - 1) };
            let next = if k + 1 < len { Some(k + 1) } else { ring.then_some(0) };
            let mk = |s: &mut Src, to: Option<usize>, fwd: bool| {
                to.filter(|_| !s.chance(1, 12)).map(|t| Nb {
                    to: path[t].clone(),
                    level: level(s),
                    permitted: if one_way { fwd } else { s.chance(3, 4) },
                })
            };
            let (a, b) = (mk(s, prev, false), mk(s, next, true));
            let nb = if s.bool() { [a, b] } else { [b, a] };
            if s.chance(1, 12) {
                continue; // only the neighbours list this fix
            }
            own.push(Line { at: path[k].clone(), airway: airway.clone(), kind, nb });
        }
        if s.bool() {
            s.shuffle(&mut own);
        }
        lines.extend(own);
    }
    if s.bool() {
        s.shuffle(&mut lines);
    }
    lines
}

/// Arbitrary tables: branches, repeated lines, contradicting levels and directions.
fn arbitrary(s: &mut Src) -> Vec<Line> {
    let pool: Vec<Node> = s.vec(2, 8, node);
    s.vec(1, 14, |s| {
        let at = s.pick(&pool).clone();
        let nb = |s: &mut Src| {
            let to = s.pick(&pool).clone();
            if to == at || s.chance(1, 4) {
                None
            } else {
                Some(Nb { to, level: level(s), permitted: s.bool() })
            }
        };
        let nb = [nb(s), nb(s)];
        Line { at, airway: s.pick(&AIRWAYS[..2]).to_string(), kind: *s.pick(&["B", "H", "L", ""]), nb }
    })
}

/// The route along the only possible continuation, as long as the airway does not branch.
fn walk(adj: &BTreeMap<Node, BTreeMap<Node, Seg>>, start: &Node, first: &Node, end: &Node) -> Option<Vec<Node>> {
    let (mut prev, mut at) = (start.clone(), first.clone());
    let mut out = vec![at.clone()];
    while at != *end {
        let next: Vec<&Node> = adj[&at].keys().filter(|n| **n != prev).collect();
        if adj[&at].len() > 2 || next.len() != 1 || out.len() > adj.len() {
            return None;
        }
        let n = next[0].clone();
        if n == *start {
            return None;
        }
        prev = at;
        at = n;
        out.push(at.clone());
    }
    Some(out)
}

/// A neighbour as the file lists it.
fn columns(n: &Node, g: &Seg) -> String {
    let level = g.level.map_or(String::new(), |l| format!("{l:05}"));
    format!("{}\t{}\t{}\t{level}\t{}", n.0, micro(n.1), micro(n.2), if g.permitted { "Y" } else { "N" })
}

fn query(t: &Table, locs: &Locations, internal: &BTreeSet<Node>, airway: &str, start: &Node, end: &str) -> Res {
    let fix = Fix { designator: start.0.clone(), coordinate: point(start) };
    let what = format!("{airway}: {start:?} -> {end}");
    let got = no_panic("expand_airway_segment", || {
        locs.airways.expand_airway_segment(&fix, end, airway, locs)
    })?;
    let empty = BTreeMap::new();
    let adj = t.adj.get(airway).unwrap_or(&empty);
    // the fix itself when the table knows it, otherwise one of that name on the airway
    let starts: Vec<&Node> = if t.nodes.contains(start) {
        adj.keys().filter(|n| *n == start).collect()
    } else {
        adj.keys().filter(|n| n.0 == start.0).collect()
    };
    let ends: Vec<&Node> = adj.keys().filter(|n| n.0 == end).collect();
    if starts.is_empty() || ends.is_empty() {
        ensure!(got.is_none(), "{what}: not both on the airway, got {got:?}");
        return Ok(());
    }
    if starts.iter().any(|n| ends.contains(n)) {
        return Ok(()); // possibly no segment asked for
    }
    // unbranched candidates
    let mut wanted = vec![];
    for a in &starts {
        for b in &ends {
            if a != b && adj[*a].len() <= 2 {
                for f in adj[*a].keys() {
                    wanted.extend(walk(adj, a, f, b).map(|w| ((*a).clone(), w)));
                }
            }
        }
    }
    let unique = starts.len() == 1 && ends.len() == 1;
    let Some(got) = got else {
        ensure!(!unique || wanted.is_empty(), "{what}: no expansion, the table has {wanted:?}");
        return Ok(());
    };
    let nodes: Vec<Node> = got
        .iter()
        .map(|(f, _)| {
            (
                f.fix.designator.clone(),
                (f.fix.coordinate.y() * 1e6).round() as i64,
                (f.fix.coordinate.x() * 1e6).round() as i64,
            )
        })
        .collect();
    let mut err = format!("{what}: got {nodes:?}, the table has {wanted:?}");
    // several fixes of the starting name may share the route
    for (from, _) in wanted.iter().filter(|(_, w)| *w == nodes) {
        let mut prev = from;
        let mut bad = None;
        for ((f, is_internal), n) in got.iter().zip(&nodes) {
            let seg = &adj[prev][n];
            if f.valid_direction != seg.permitted {
                bad = Some(format!("direction {prev:?} -> {n:?} is {} in the table", seg.permitted));
            } else if f.minimum_level != seg.level {
                bad = Some(format!("level {prev:?} -> {n:?} is {:?} in the table, got {:?}", seg.level, f.minimum_level));
            } else if f.to_string() != columns(n, seg) {
                bad = Some(format!("{n:?} is printed as {f}"));
            } else if *is_internal != internal.contains(n) {
                bad = Some(format!("{n:?} internal is {is_internal}"));
            }
            prev = n;
        }
        match bad {
            None => return Ok(()),
            Some(b) => err = format!("{what}: {b}"),
        }
    }
    Err(Fail::from(err))
}

/// A database that knows some of the fixes, under several kinds and with namesakes.
fn locations(s: &mut Src, t: &Table) -> (Locations, BTreeSet<Node>) {
    let mut known = BTreeSet::new();
    let mut fixes = MultiMap::new();
    let mut vors = MultiMap::new();
    let mut ndbs = MultiMap::new();
    let mut all: Vec<Node> = t.nodes.iter().cloned().collect();
    for n in t.nodes.iter() {
        if s.chance(1, 4) {
            all.push((n.0.clone(), n.1 + s.int(1, 3), n.2));
        }
    }
    s.shuffle(&mut all);
    for n in all {
        let (designator, coordinate) = (n.0.clone(), point(&n));
        match s.draw(4) {
            0 => continue,
            1 => fixes.insert(n.0.clone(), Fix { designator, coordinate }),
            2 => vors.insert(n.0.clone(), VOR { designator, coordinate, frequency: "112.300".into() }),
            _ => ndbs.insert(n.0.clone(), NDB { designator, coordinate, frequency: "410.000".into() }),
        }
        known.insert(n);
    }
    (Locations { fixes, vors, ndbs, airports: HashMap::new(), ..Default::default() }, known)
}

fn check(s: &mut Src, c: &mut Case, lines: Vec<Line>) -> Res {
    let t = Table::build(lines);
    if t.lines.is_empty() {
        return Ok(());
    }
    let text = t.render(s);
    c.input = text.clone();
    c.nontrivial = t.nodes.len() >= 3;
    let graph = no_panic("parse_airway_txt", || parse_airway_txt(text.as_bytes()))?;
    let graph = graph.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let (mut locs, known) = locations(s, &t);
    locs.airways = graph;
    let branches = t.adj.values().any(|a| a.values().any(|n| n.len() > 2));
    c.label(if branches { "branching" } else { "unbranched" });
    let mut nodes: Vec<Node> = t.nodes.iter().cloned().collect();
    let strange: Vec<Node> = nodes.iter().map(|n| (n.0.clone(), n.1 + 17, n.2)).collect();
    nodes.extend(strange);
    nodes.push(("ZZZZZ".into(), 0, 0));
    let names: BTreeSet<&String> = nodes.iter().map(|n| &n.0).collect();
    if names.len() < t.nodes.len() {
        c.label("namesakes");
    }
    for a in t.adj.keys().map(String::as_str).chain(["UZZZ"]) {
        for n in &nodes {
            for e in &names {
                query(&t, &locs, &known, a, n, e)?;
            }
        }
    }
    Ok(())
}

fn chain(s: &mut Src, c: &mut Case) -> Res {
    let l = chains(s);
    check(s, c, l)
}
fn any(s: &mut Src, c: &mut Case) -> Res {
    let l = arbitrary(s);
    check(s, c, l)
}

/// The neighbour table as the graph is exported: fix, airway, neighbour and what is said of it.
type Edge = (Node, String, Node, bool, Option<u64>, String);
fn export(v: &serde_json::Value) -> Option<Vec<Edge>> {
    let names = v["fix_name_by_id"].as_array()?;
    let awys = v["airway_name_by_id"].as_array()?;
    let node = |i: usize| -> Option<Node> {
        let p = &v["fixes"].get(i)?["position"];
        let f = |k: &str| p[k].as_f64().map(|v| (v * 1e6).round() as i64);
        Some((names.get(i)?.as_str()?.to_string(), f("y")?, f("x")?))
    };
    let mut out = vec![];
    for (i, f) in v["fixes"].as_array()?.iter().enumerate() {
        for (a, edges) in f["edges"].as_object()? {
            let a = awys.get(a.parse::<usize>().ok()?)?.as_str()?.to_string();
            for e in edges.as_array()? {
                let to = node(e["to"].as_u64()? as usize)?;
                let level = e["minimum_level"].as_u64();
                out.push((node(i)?, a.clone(), to, e["valid_direction"].as_bool()?, level, e["airway_type"].as_str()?.to_string()));
            }
        }
    }
    Some(out)
}

/// Every listed link is in the graph as it is exported, in both directions, with the kind of the airway, and none else.
fn exported(s: &mut Src, c: &mut Case) -> Res {
    let t = Table::build(if s.bool() { chains(s) } else { arbitrary(s) });
    if t.lines.is_empty() {
        return Ok(());
    }
    let text = t.render(s);
    c.input = text.clone();
    c.nontrivial = t.nodes.len() >= 3;
    let graph = parse_airway_txt(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let json = serde_json::to_value(&graph).map_err(|e| Fail::from(format!("not exported: {e}")))?;
    let Some(mut got) = export(&json) else {
        c.label("exported in another form");
        c.nontrivial = false;
        return Ok(());
    };
    got.sort();
    let mut want = vec![];
    for (a, adj) in &t.adj {
        for (n, to) in adj {
            want.extend(to.iter().map(|(m, g)| (n.clone(), a.clone(), m.clone(), g.permitted, g.level.map(u64::from))));
        }
    }
    want.sort();
    let plain: Vec<_> = got.iter().cloned().map(|(n, a, m, p, l, _)| (n, a, m, p, l)).collect();
    ensure!(plain == want, "the graph has {plain:#?}\nthe table {want:#?}");
    for (n, a, m, _, _, kind) in &got {
        let name = |k: &str| match k {
            "H" => "High",
            "L" => "Low",
            "B" => "Both",
            _ => "Unknown",
        };
        let links = |l: &&Line, x: &Node, y: &Node| l.at == *x && l.airway == *a && l.nb.iter().flatten().any(|b| b.to == *y);
        let kinds: BTreeSet<&str> =
            t.lines.iter().filter(|l| links(l, n, m) || links(l, m, n)).map(|l| name(l.kind)).collect();
        c.label(format!("kinds:{}", kinds.len()));
        ensure!(kinds.contains(kind.as_str()), "{a}: {n:?} - {m:?} is {kind}, listed as {kinds:?}");
    }
    Ok(())
}

/// One airway over many fixes, crossed by others.
fn long(s: &mut Src, c: &mut Case) -> Res {
    let len = match s.weighted(&[4, 3, 1]) {
        0 => s.us(20, 130),
        1 => s.us(130, 300),
        _ => s.us(300, 1200),
    };
    let one_way = s.chance(1, 3);
    let step = s.int(1, 60_000);
    let names = s.chance(1, 4);
    let path: Vec<Node> = (0..len as i64)
        .map(|i| {
            // the same few names come again and again
            let n = if names { format!("N{}", i % 40) } else { format!("F{i}") };
            (n, 48_000_000 + i * step % 7_000_000, 11_000_000 + i * step)
        })
        .collect();
    let mut lines = vec![];
    for k in 0..len {
        let nb = |s: &mut Src, t: Option<&Node>, permitted: bool| {
            t.map(|t| Nb { to: t.clone(), level: level(s), permitted: if one_way { permitted } else { s.chance(3, 4) } })
        };
        let a = nb(s, k.checked_sub(1).map(|k| &path[k]), false);
        let b = nb(s, path.get(k + 1), true);
        lines.push(Line { at: path[k].clone(), airway: AIRWAYS[0].into(), kind: "B", nb: [a, b] });
    }
    for _ in 0..s.us(0, 3) {
        let (a, b) = (s.pick(&path).clone(), s.pick(&path).clone());
        if a != b {
            let nb = Some(Nb { to: b, level: level(s), permitted: true });
            lines.push(Line { at: a, airway: AIRWAYS[1].into(), kind: "B", nb: [None, nb] });
        }
    }
    if s.bool() {
        s.shuffle(&mut lines);
    }
    let t = Table::build(lines);
    let text = t.render(s);
    c.input = text.clone();
    c.nontrivial = true;
    let graph = no_panic("parse_airway_txt", || parse_airway_txt(text.as_bytes()))?;
    let graph = graph.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let (mut locs, known) = locations(s, &t);
    locs.airways = graph;
    let (first, last) = (path[0].clone(), path[len - 1].clone());
    query(&t, &locs, &known, AIRWAYS[0], &first, &last.0)?;
    query(&t, &locs, &known, AIRWAYS[0], &last, &first.0)?;
    for _ in 0..12 {
        let (a, b) = (s.pick(&path).clone(), s.pick(&path).clone());
        query(&t, &locs, &known, AIRWAYS[0], &a, &b.0)?;
    }
    Ok(())
}

/// The result does not depend on the order of the lines of the file.
fn order(s: &mut Src, c: &mut Case) -> Res {
    let l = chains(s);
    if l.is_empty() {
        return Ok(());
    }
    let mut r = l.clone();
    s.shuffle(&mut r);
    let (t, u) = (Table::build(l), Table::build(r));
    let (x, y) = (t.render(s), u.render(s));
    c.input = format!("{x}======\n{y}");
    c.nontrivial = t.lines.len() >= 3;
    let p = |t: &str| parse_airway_txt(t.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")));
    let (a, b) = (p(&x)?, p(&y)?);
    let locs = Locations::default();
    let names: BTreeSet<&String> = t.nodes.iter().map(|n| &n.0).collect();
    for (airway, adj) in &t.adj {
        // rings have two routes and namesakes on one airway two meanings
        let unique = adj.keys().map(|n| &n.0).collect::<BTreeSet<_>>().len() == adj.len();
        let open = adj.values().any(|n| n.len() < 2);
        if !unique || !open || adj.values().any(|n| n.len() > 2) {
            continue;
        }
        for n in &t.nodes {
            for e in &names {
                let f = Fix { designator: n.0.clone(), coordinate: point(n) };
                let (p, q) = (
                    a.expand_airway_segment(&f, e, airway, &locs),
                    b.expand_airway_segment(&f, e, airway, &locs),
                );
                ensure!(p == q, "{airway}: {n:?} -> {e}: {p:?} or {q:?} depending on the line order");
            }
        }
    }
    Ok(())
}

/// The text of an airway file.
pub fn table(s: &mut Src) -> String {
    let lines = if s.bool() { chains(s) } else { arbitrary(s) };
    Table::build(lines).render(s)
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "random airway tables (chains, rings, one-way and one-sided links, branches, fixes of one name metres or continents apart, fixes shared by airways, contradicting levels; chains of up to 1200 fixes) and every query start x end x airway on them; the graph as it is exported; non-trivial: at least 3 fixes. Oracle: an adjacency map built from the lines; forced walk along the neighbours",
        assumptions: &["a fix is not its own neighbour", "an expansion from a fix to itself is not judged", "on a ring either way round is accepted"],
        subs: vec![
            Sub { name: "chains", quick: 30_000, thorough: 600_000, f: chain },
            Sub { name: "arbitrary", quick: 30_000, thorough: 600_000, f: any },
            Sub { name: "exported", quick: 8_000, thorough: 200_000, f: exported },
            Sub { name: "long", quick: 250, thorough: 8000, f: long },
            Sub { name: "line_order", quick: 4_000, thorough: 100_000, f: order },
        ],
        probes: vec![],
    }
}
