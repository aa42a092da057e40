//! H01: the online help knows every topic by its name and by what sets it apart.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use endbasic_core::{CallResult, Callable, CallableMetadata, CallableMetadataBuilder, ExprType, Scope};
use endbasic_std::storage::Storage;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "H01",
        rule: "All names of topics (commands, functions, categories, language topics) in three spellings, all their \
               prefixes in three spellings, all prefixes followed by one of 42 characters, and all texts of up to 2 \
               (thorough: 3) of 42 characters, looked up in the real help and in a model of it; all topics on \
               consoles of all widths up to 140; all sets of 8 callables of the host whose names start with one another, \
               with all prefixes.",
        assumptions: &[],
        sections,
    }
}

const CHARS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789 $%#?ñ";

struct Extra {
    md: Rc<CallableMetadata>,
}

impl Callable for Extra {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, _: Scope<'_>) -> CallResult<()> {
        Ok(())
    }
}

const EXTRAS: [(&str, Option<ExprType>); 8] = [
    ("ZA", None),
    ("ZAB", Some(ExprType::Text)),
    ("ZABC", None),
    ("ZABCD", Some(ExprType::Boolean)),
    ("ZAC", Some(ExprType::Integer)),
    ("ZB", Some(ExprType::Double)),
    ("Z_1", None),
    ("ZABD_LONG_NAME", None),
];

/// A topic: its name and, if it is a callable, what is known of it.
struct Model {
    /// By name in capitals.
    topics: BTreeMap<String, Option<Rc<CallableMetadata>>>,
    /// What belongs to each topic that is a list.
    lists: BTreeMap<String, BTreeSet<String>>,
}

fn full_name(md: &CallableMetadata) -> String {
    let annotation = md.return_type().map(|t| t.annotation().to_string()).unwrap_or_default();
    format!("{}{}", md.name(), annotation)
}

fn rig(size: (usize, usize), extras: usize) -> (Mach, Model) {
    let mut all = None;
    let m = Mach::build(
        Opts { size, ..Default::default() },
        Some((Rc::new(RefCell::new(MemProgram::default())), Rc::new(RefCell::new(Storage::default())))),
        |mut b| {
            all = Some(b.callables_metadata());
            for (i, (name, t)) in EXTRAS.iter().enumerate() {
                if extras & (1 << i) == 0 {
                    continue;
                }
                let mut md = CallableMetadataBuilder::new(name)
                    .with_syntax(&[(&[], None)])
                    .with_category("Zoo of tests\nWith more to say.")
                    .with_description("What it is.\nWhat it does.");
                if let Some(t) = t {
                    md = md.with_return_type(*t);
                }
                b.add_callable(Rc::new(Extra { md: md.build() }));
            }
            b
        },
    );
    let mut topics = BTreeMap::new();
    let mut lists: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for md in all.unwrap().borrow().values() {
        let name = full_name(md);
        let category = md.category().lines().next().unwrap().to_owned();
        lists.entry(category).or_default().insert(name.clone());
        topics.insert(name.to_ascii_uppercase(), Some(md.clone()));
    }
    // A name that is also a category stands for the category; see the section on hidden topics.
    for category in lists.keys() {
        topics.insert(category.to_ascii_uppercase(), None);
    }
    topics.insert("LANGUAGE REFERENCE".to_owned(), None);
    (m, Model { topics, lists })
}

/// Adds the topics of the language to the model.
fn with_language(m: &mut Mach, model: &mut Model) -> Result<(), Failure> {
    let names = listed(m, "Language reference")?;
    if names.len() < 3 {
        return Err(Failure::new("h01:language", format!("only {:?} in the language reference", names)));
    }
    for n in &names {
        model.topics.insert(n.to_ascii_uppercase(), None);
    }
    model.lists.insert("Language reference".to_owned(), names);
    Ok(())
}

/// The entries of a list.
fn listed(m: &mut Mach, topic: &str) -> Result<BTreeSet<String>, Failure> {
    let (o, text) = ask(m, topic);
    if o != Outcome::Done(None) {
        return Err(Failure::new("h01:list", format!("HELP {:?}: {:?}", topic, o)));
    }
    let mut v = BTreeSet::new();
    for l in text.lines() {
        if let Some(t) = l.trim_start().strip_prefix(">> ") {
            let name = t.split("  ").next().unwrap().trim().to_owned();
            if !v.insert(name) {
                return Err(Failure::new("h01:list", format!("HELP {:?} repeats {:?}\n{}", topic, l, text)));
            }
        }
    }
    Ok(v)
}

fn ask(m: &mut Mach, topic: &str) -> (Outcome, String) {
    m.m.clear();
    m.con.borrow_mut().log.clear();
    let o = m.feed(&format!("HELP \"{}\"", topic));
    (o, m.text())
}

impl Model {
    /// What a text stands for.
    fn find(&self, text: &str) -> Found {
        let key = text.to_ascii_uppercase();
        if self.topics.contains_key(&key) {
            return Found::One(key);
        }
        let v: Vec<&String> = self.topics.keys().filter(|k| k.starts_with(&key)).collect();
        match v[..] {
            [] => Found::Nothing,
            [one] => Found::One(one.clone()),
            _ => Found::Many(v.into_iter().cloned().collect()),
        }
    }
}

enum Found {
    One(String),
    Many(Vec<String>),
    Nothing,
}

fn variants(s: &str) -> [String; 3] {
    let mut i = 0;
    let mixed = s
        .chars()
        .map(|c| {
            i += 1;
            if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
        })
        .collect();
    [s.to_owned(), s.to_ascii_lowercase(), mixed]
}

/// The pages of the help, by topic.
struct Pages {
    seen: RefCell<BTreeMap<String, String>>,
}

fn lookup(m: &mut Mach, model: &Model, pages: &Pages, text: &str, cx: &mut Cx) -> CaseResult {
    let (o, shown) = ask(m, text);
    cx.step(1);
    let fail = |key: &str, detail: String| {
        let mut shown = shown.clone();
        let cut = shown.char_indices().nth(400).map(|(i, _)| i).unwrap_or(shown.len());
        shown.truncate(cut);
        Err(Failure::new(key, format!("HELP {:?}: {}\n{:?}\n{}", text, detail, o, shown)))
    };
    match model.find(text) {
        Found::One(topic) => {
            cx.count("found");
            if o != Outcome::Done(None) {
                return fail("h01:not-found", format!("is {}", topic));
            }
            // The page has to be the one that the full name gives.
            let known = pages.seen.borrow().get(&topic).cloned();
            let page = match known {
                Some(p) => p,
                None => {
                    let (o, page) = ask(m, &topic);
                    if o != Outcome::Done(None) {
                        return fail("h01:not-found", format!("is {} but {:?}", topic, o));
                    }
                    pages.seen.borrow_mut().insert(topic.clone(), page.clone());
                    page
                }
            };
            if page != shown {
                return fail("h01:page", format!("is {} but shows something else than\n{}", topic, page));
            }
        }
        Found::Many(names) => {
            cx.count("ambiguous");
            let Outcome::Err(e) = &o else {
                return fail("h01:ambiguous", format!("stands for {:?}", names));
            };
            let upper = e.to_uppercase();
            if !upper.contains("AMBIGUOUS") {
                return fail("h01:ambiguous", format!("stands for {:?}", names));
            }
            let Some(rest) = upper.split("CANDIDATES ARE: ").nth(1) else {
                return fail("h01:ambiguous", "no candidates".to_owned());
            };
            let got: BTreeSet<String> = rest.split(", ").map(|s| s.trim().to_uppercase()).collect();
            let want: BTreeSet<String> = names.iter().map(|s| s.to_uppercase()).collect();
            if got != want {
                return fail("h01:candidates", format!("candidates {:?} instead of {:?}", got, want));
            }
            if !shown.is_empty() {
                return fail("h01:ambiguous", "shows something".to_owned());
            }
        }
        Found::Nothing => {
            cx.count("unknown");
            match &o {
                Outcome::Err(e) if e.contains("nknown help topic") && e.contains(text) => (),
                _ => return fail("h01:unknown", "is unknown".to_owned()),
            }
            if !shown.is_empty() {
                return fail("h01:unknown", "shows something".to_owned());
            }
        }
    }
    cx.state(&(text, &shown));
    Ok(())
}

fn words(s: &str) -> Vec<&str> {
    s.split_whitespace().collect()
}

/// Checks that one sequence of words contains another.
fn contains(all: &[&str], part: &[&str]) -> bool {
    part.is_empty() || all.windows(part.len()).any(|w| w == part)
}

/// Checks the contents of the pages.
fn contents(m: &mut Mach, model: &Model, cx: &mut Cx) -> CaseResult {
    for (topic, md) in &model.topics {
        let (o, text) = ask(m, topic);
        cx.step(1);
        if o != Outcome::Done(None) {
            return Err(Failure::new("h01:not-found", format!("{}: {:?}", topic, o)));
        }
        let got = words(&text);
        if let Some(md) = md {
            let name = full_name(md);
            let head = match (md.return_type(), md.is_argless()) {
                (None, true) => md.name().to_owned(),
                (None, false) => format!("{} {}", md.name(), md.syntax()),
                (Some(_), true) => name,
                (Some(_), false) => format!("{}({})", name, md.syntax()),
            };
            let mut want = words(&head);
            let description: Vec<&str> = md.description().collect();
            for d in &description {
                want.extend(words(d));
            }
            if got != want {
                return Err(Failure::new("h01:contents", format!("{} shows\n{}\ninstead of\n{:?}", topic, text, want)));
            }
        }
    }
    for (list, names) in &model.lists {
        let got = listed(m, list)?;
        if got != *names {
            return Err(Failure::new("h01:list", format!("{} lists {:?} instead of {:?}", list, got, names)));
        }
        let (_, text) = ask(m, list);
        let got = words(&text);
        for name in names {
            if let Some(Some(md)) = model.topics.get(&name.to_ascii_uppercase()) {
                let mut want = vec![">>", name.as_str()];
                want.extend(words(md.description().next().unwrap()));
                if !contains(&got, &want) {
                    return Err(Failure::new("h01:list", format!("{} does not say {:?}\n{}", list, want, text)));
                }
                for l in md.category().lines() {
                    if !contains(&got, &words(l)) {
                        return Err(Failure::new("h01:list", format!("{} does not say {:?}\n{}", list, l, text)));
                    }
                }
            }
        }
        cx.step(1);
    }
    // The summary has all the lists.
    m.m.clear();
    m.con.borrow_mut().log.clear();
    let o = m.feed("HELP");
    let text = m.text();
    let got: BTreeSet<String> =
        text.lines().filter_map(|l| l.trim_start().strip_prefix(">> ")).map(|s| s.trim().to_owned()).collect();
    let want: BTreeSet<String> = model.lists.keys().cloned().collect();
    if o != Outcome::Done(None) || got != want {
        return Err(Failure::new("h01:summary", format!("HELP: {:?} lists {:?} instead of {:?}", o, got, want)));
    }
    cx.step(1);
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    const WIDE: (usize, usize) = (300, 24);
    let mut v = vec![];
    let names: Rc<Vec<String>> = {
        let (mut m, mut model) = rig(WIDE, 0);
        // A failure is reported by the sections.
        let _ = with_language(&mut m, &mut model);
        Rc::new(model.topics.keys().cloned().collect())
    };
    {
        let names: Vec<String> = names.to_vec();
        let again = names.clone();
        v.push(Section::new(
            "names and prefixes",
            names.len() as u64,
            move |i| names[i as usize].clone(),
            move |i, cx| {
                let (mut m, mut model) = rig(WIDE, 0);
                with_language(&mut m, &mut model)?;
                let pages = Pages { seen: RefCell::default() };
                let name = &again[i as usize];
                cx.traces += 1;
                for n in variants(name) {
                    let (o, shown) = ask(&mut m, &n);
                    if o != Outcome::Done(None) {
                        return Err(Failure::new("h01:not-found", format!("HELP {:?}: {:?}", n, o)));
                    }
                    // Every page starts with the name of what it describes, whatever it is.
                    let start = words(&shown).join(" ").to_ascii_uppercase();
                    if model.topics[name].is_some() && !start.starts_with(name.as_str()) {
                        return Err(Failure::new("h01:page", format!("HELP {:?} shows {}", n, shown)));
                    }
                }
                for end in 1..=name.len() {
                    if !name.is_char_boundary(end) {
                        continue;
                    }
                    for p in variants(&name[..end]) {
                        lookup(&mut m, &model, &pages, &p, cx)?;
                    }
                    for c in CHARS.chars() {
                        lookup(&mut m, &model, &pages, &format!("{}{}", &name[..end], c), cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let k = CHARS.chars().count() as u64;
        let n = tier.pick(2, 3);
        let count = seq_count(k, 0, n - 1);
        let text = move |i: u64| -> String {
            seq_decode(k, 0, i).into_iter().map(|c| CHARS.chars().nth(c).unwrap()).collect()
        };
        v.push(Section::new(
            "short texts",
            count,
            move |i| format!("{:?}*", text(i)),
            move |i, cx| {
                let (mut m, mut model) = rig(WIDE, 0);
                with_language(&mut m, &mut model)?;
                let pages = Pages { seen: RefCell::default() };
                let t = text(i);
                cx.traces += 1;
                lookup(&mut m, &model, &pages, &t, cx)?;
                if t.chars().count() as u32 == n - 1 {
                    for c in CHARS.chars() {
                        lookup(&mut m, &model, &pages, &format!("{}{}", t, c), cx)?;
                        lookup(&mut m, &model, &pages, &format!("{}{}", t, c).to_ascii_lowercase(), cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(Section::new(
        "sets of callables",
        1 << EXTRAS.len(),
        move |i| format!("{:?}", (0..EXTRAS.len()).filter(|b| i & (1 << b) != 0).map(|b| EXTRAS[b].0).collect::<Vec<_>>()),
        move |i, cx| {
            let (mut m, mut model) = rig(WIDE, i as usize);
            with_language(&mut m, &mut model)?;
            let pages = Pages { seen: RefCell::default() };
            cx.traces += 1;
            contents(&mut m, &model, cx)?;
            for (name, _) in EXTRAS.iter() {
                for end in 1..=name.len() {
                    for p in variants(&name[..end]) {
                        lookup(&mut m, &model, &pages, &p, cx)?;
                        for c in "$%#?A_D".chars() {
                            lookup(&mut m, &model, &pages, &format!("{}{}", p, c), cx)?;
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    {
        let mut all = None;
        Mach::build(
            Opts::default(),
            Some((Rc::new(RefCell::new(MemProgram::default())), Rc::new(RefCell::new(Storage::default())))),
            |b| {
                all = Some(b.callables_metadata());
                b
            },
        );
        let all = all.unwrap();
        let mut names: Vec<String> = all.borrow().values().map(|md| full_name(md)).collect();
        names.sort();
        let again = names.clone();
        v.push(Section::new(
            "every callable can be found",
            names.len() as u64,
            move |i| names[i as usize].clone(),
            move |i, cx| {
                let (mut m, _) = rig(WIDE, 0);
                let name = &again[i as usize];
                cx.step(1);
                cx.traces += 1;
                let (o, text) = ask(&mut m, name);
                let first = text.lines().find(|l| !l.trim().is_empty()).unwrap_or("").trim();
                let ok = o == Outcome::Done(None)
                    && first.strip_prefix(name.as_str()).is_some_and(|r| r.is_empty() || r.starts_with([' ', '(']));
                if !ok || text.contains("Type HELP followed by") {
                    return Err(Failure::new(
                        format!("h01:hidden:{}", name),
                        format!("HELP {:?} does not describe it: {:?}\n{}", name, o, text),
                    ));
                }
                Ok(())
            },
        ));
    }
    {
        let radices = [140];
        v.push(Section::new(
            "widths",
            product(&radices),
            move |i| format!("{} columns", mixed(&radices, i)[0] + 1),
            move |i, cx| {
                let w = i as usize + 1;
                let (mut wide, mut model) = rig((1000, 24), 0);
                with_language(&mut wide, &mut model)?;
                let (mut m, _) = rig((w, 24), 0);
                cx.traces += 1;
                for topic in model.topics.keys() {
                    let (a, want) = ask(&mut wide, topic);
                    let (b, got) = ask(&mut m, topic);
                    cx.step(1);
                    if a != b || words(&want) != words(&got) {
                        return Err(Failure::new(
                            "h01:widths",
                            format!("HELP {:?} on {} columns: {:?}\n{}\ninstead of {:?}\n{}", topic, w, b, got, a, want),
                        ));
                    }
                    // Prose does not go past the end of the screen.
                    for l in got.lines() {
                        let n = words(l).len();
                        if n > 1 && !l.trim_start().starts_with(">>") && l.chars().count() > w.max(1) {
                            let first = words(l)[0];
                            let indent = l.len() - l.trim_start().len();
                            if indent + first.chars().count() <= w {
                                return Err(Failure::new(
                                    "h01:overflow",
                                    format!("HELP {:?} on {} columns: {:?}", topic, w, l),
                                ));
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    v
}
