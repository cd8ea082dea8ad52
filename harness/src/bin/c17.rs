//! C17: cursors yield every element once, in order, independently of each other. Every interleaving
//! of the steps of two and three cursors (beyond their end), with every placement of a toggle,
//! search, load, listing or the disposal of the handler in between.
use std::rc::Rc;
use std::sync::Arc;

use indexer_lib as ix;
use ix::classic_indexes::ClassicIndexes;
use ix::js_interactable::{CategoryIter, CategoryOptionIter, ProductProducer, TagIter};
use vharness::engine::*;
use vharness::model::*;
use vharness::sys::{self, CategoryHandler, TagHandler};

const MAX: usize = 5;

/// n categories (category j has j options), n tags, five products found by their tokens.
fn catalogue(n: usize) -> Vec<P> {
    (0..6)
        .map(|i| {
            let mut p = P::new(&format!("p{i}")).desc(&token(i)).title(&format!("t{}", (i * 5 + 3) % 7));
            for j in 0..n {
                p = p.tag(&format!("tag {}", (j + i) % n));
                let values: Vec<String> = (0..j).map(|k| format!("value {j}.{k}")).collect();
                p = p.opt(&format!("category {j}"), &values.iter().map(String::as_str).collect::<Vec<_>>());
            }
            p
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Products,
    Categories,
    Options,
    Tags,
}
const KINDS: [Kind; 4] = [Kind::Products, Kind::Categories, Kind::Options, Kind::Tags];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Event {
    Nothing,
    Toggle,
    Search,
    Load,
    List,
    DropHandlers,
}
const EVENTS: [Event; 6] = [Event::Nothing, Event::Toggle, Event::Search, Event::Load, Event::List, Event::DropHandlers];

/// One image and the handlers on it.
struct Source {
    image: Vec<u8>,
    classic: Arc<ClassicIndexes<'static>>,
}

struct Bench {
    sources: Vec<Source>,
}

impl Bench {
    fn new() -> Result<Bench, String> {
        let mut sources = Vec::new();
        for n in 0..=MAX {
            let image = sys::image(&catalogue(n))?;
            let (_, classic) = sys::must_decode::<5>(&image)?;
            sources.push(Source { image, classic: Arc::new(classic) });
        }
        Ok(Bench { sources })
    }
    fn handlers(&self, n: usize) -> (CategoryHandler, TagHandler) {
        (CategoryHandler::new(self.sources[n].classic.clone()), TagHandler::new(self.sources[n].classic.clone()))
    }
}

enum Cursor {
    Products(ProductProducer),
    Categories(CategoryIter),
    Options(CategoryOptionIter, String),
    Tags(TagIter),
}

impl Cursor {
    fn open(kind: Kind, len: usize, h: &(CategoryHandler, TagHandler)) -> Result<Cursor, String> {
        guarded(|| {
            Ok(match kind {
                Kind::Products => {
                    let q: String = (0..len).map(token).collect::<Vec<_>>().join(" ");
                    Cursor::Products(ix::search(&q, &h.0, &h.1, Some("Alphabetical".into()), &sys::no_filter()).ok_or("no result")?)
                }
                Kind::Categories => Cursor::Categories(h.0.iter()),
                Kind::Options => {
                    let mut it = h.0.iter();
                    for _ in 0..len {
                        it.next_item().ok_or("too few categories")?;
                    }
                    // category number `len` has `len` options
                    let o = it.next_item().ok_or("too few categories")?;
                    let name = o.name();
                    Cursor::Options(o, name)
                }
                Kind::Tags => Cursor::Tags(h.1.tags()),
            })
        })?
    }
    fn step(&mut self) -> Result<Option<String>, String> {
        guarded(|| match self {
            Cursor::Products(p) => Ok(p.next_product().map(|p| p.get_id())),
            Cursor::Categories(c) => Ok(c.next_item().map(|o| o.name())),
            Cursor::Options(o, name) => {
                let out = o.next_item().map(|o| o.get_name());
                if o.name() != *name {
                    return Err(format!("the option cursor of {name:?} now calls itself {:?}", o.name()));
                }
                Ok(out)
            }
            Cursor::Tags(t) => Ok(t.next_tag().map(|t| t.get_name())),
        })?
    }
}

/// The image a cursor with `len` elements works on (option cursors and products: the largest one).
fn image_of(kind: Kind, len: usize) -> usize {
    match kind {
        Kind::Categories | Kind::Tags => len,
        Kind::Options | Kind::Products => MAX,
    }
}

/// What the catalogue says a cursor yields. The order of tags is that of the handler's own listing.
fn elements(kind: Kind, len: usize, b: &Bench) -> Result<Vec<String>, String> {
    let n = image_of(kind, len);
    Ok(match kind {
        Kind::Products => {
            let mut ps: Vec<P> = catalogue(n).into_iter().take(len).collect();
            ps.sort_by(|a, b| a.title.cmp(&b.title));
            ps.into_iter().map(|p| p.id).collect()
        }
        Kind::Categories => (0..len).map(|j| format!("category {j}")).collect(),
        Kind::Options => (0..len).map(|k| format!("value {len}.{k}")).collect(),
        Kind::Tags => {
            let order: Vec<String> = b.sources[n].classic.tags.iter().map(|t| t.name.clone()).collect();
            let mut sorted = order.clone();
            sorted.sort();
            if sorted != (0..len).map(|j| format!("tag {j}")).collect::<Vec<_>>() {
                return Err(format!("the catalogue has {len} tags, the index {sorted:?}"));
            }
            order
        }
    })
}

fn event(e: Event, b: &Bench, home: usize, h: &mut Option<(CategoryHandler, TagHandler)>, other: bool) -> Result<(), String> {
    match e {
        Event::Nothing => Ok(()),
        Event::Toggle => {
            let Some(h) = h else { return Ok(()) };
            for (_, opts) in sys::list_categories(&h.0, 20)? {
                for (_, o) in opts {
                    guarded(|| h.0.toggle(&o))?;
                }
            }
            for t in sys::list_tags(&h.1, 20)? {
                guarded(|| h.1.toggle(&t))?;
            }
            Ok(())
        }
        Event::Search => {
            let q: String = (0..5).map(token).collect();
            let (c, t) = b.handlers(MAX);
            guarded(|| ix::search(&q, &c, &t, None, &sys::no_filter()).map(|mut r| sys::drain_ids(&mut r, 50)))?.ok_or("a search in between gives nothing")?;
            Ok(())
        }
        Event::Load => sys::must_load(&b.sources[if other { 1 } else { MAX }].image),
        Event::List => {
            let (c, t) = b.handlers(home);
            sys::list_categories(&c, 20)?;
            sys::list_tags(&t, 20)?;
            if let Some((c, t)) = h {
                sys::list_categories(c, 20)?;
                sys::list_tags(t, 20)?;
            }
            Ok(())
        }
        Event::DropHandlers => {
            *h = None;
            Ok(())
        }
    }
}

/// Runs one interleaving (`who[i]` steps at i); the event happens before step `at`.
#[allow(clippy::too_many_arguments)]
fn run_one(b: &Bench, kinds: &[(Kind, usize)], want: &[Vec<String>], share: bool, who: &[usize], e: Event, at: usize, cx: &mut Cx) -> Result<(), String> {
    // loading leaks: only when the current image was replaced
    let h0 = b.handlers(image_of(kinds[0].0, kinds[0].1));
    let mut cursors = Vec::new();
    let mut own = Vec::new();
    for (k, (kind, len)) in kinds.iter().enumerate() {
        if share && image_of(*kind, *len) == image_of(kinds[0].0, kinds[0].1) {
            cursors.push(Cursor::open(*kind, *len, &h0)?);
        } else {
            let h = b.handlers(image_of(*kind, *len));
            cursors.push(Cursor::open(*kind, *len, &h)?);
            if k > 0 {
                own.push(h);
            }
        }
    }
    let mut handlers = Some(h0);
    let mut pos = vec![0usize; cursors.len()];
    for (i, w) in who.iter().enumerate() {
        if i == at {
            event(e, b, image_of(kinds[0].0, kinds[0].1), &mut handlers, true)?;
            if e == Event::DropHandlers {
                own.clear();
            }
        }
        let got = cursors[*w].step().map_err(|m| format!("step {i} of {who:?}: {m}"))?;
        let expect = want[*w].get(pos[*w]);
        if got.as_ref() != expect {
            return Err(format!("steps {who:?}, {e:?} before step {at}: step {i} of cursor {w} ({:?}) yields {got:?} instead of {expect:?}", kinds[*w].0));
        }
        pos[*w] += 1;
        cx.outcome(&got);
    }
    cx.state(&(kinds, share, who, e, at));
    cx.step(who.len() as u64);
    cx.trace();
    Ok(())
}

/// All orders of a steps of cursor 0 and b steps of cursor 1.
fn interleavings(a: usize, b: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    fn go(a: usize, b: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if a == 0 && b == 0 {
            out.push(cur.clone());
            return;
        }
        for (k, left) in [a, b].into_iter().enumerate() {
            if left > 0 {
                cur.push(k);
                go(a - usize::from(k == 0), b - usize::from(k == 1), cur, out);
                cur.pop();
            }
        }
    }
    go(a, b, &mut cur, &mut out);
    out
}

fn pair(b: &Bench, kinds: [(Kind, usize); 2], share: bool, e: Event, beyond: usize, cx: &mut Cx) -> Result<(), String> {
    sys::must_load(&b.sources[MAX].image)?;
    let want = [elements(kinds[0].0, kinds[0].1, b)?, elements(kinds[1].0, kinds[1].1, b)?];
    for who in interleavings(kinds[0].1 + beyond, kinds[1].1 + beyond) {
        let places = if e == Event::Nothing { 0..1 } else { 0..who.len() };
        for at in places {
            run_one(b, &kinds, &want, share, &who, e, at, cx)?;
            if e == Event::Load {
                event(Event::Load, b, 0, &mut None, false)?;
            }
        }
    }
    Ok(())
}

/// A category cursor and the option cursors taken from it, in every order of steps.
fn nested(b: &Bench, depth: usize, first: usize, cx: &mut Cx) -> Result<(), String> {
    fn go(b: &Bench, script: &mut Vec<usize>, depth: usize, cx: &mut Cx) -> Result<(), String> {
        // run the script: 0 = category cursor, k = k-th option cursor taken so far
        let (c, _t) = b.handlers(MAX);
        let mut it = c.iter();
        let mut opts: Vec<(usize, CategoryOptionIter, usize)> = Vec::new();
        let mut taken = 0;
        for s in script.iter() {
            if *s == 0 {
                let got = guarded(|| it.next_item())?;
                match (got, taken < MAX) {
                    (Some(o), true) => {
                        if o.name() != format!("category {taken}") {
                            return Err(format!("{script:?}: category {taken} is called {:?}", o.name()));
                        }
                        opts.push((taken, o, 0));
                        taken += 1;
                    }
                    (None, false) => (),
                    (g, _) => return Err(format!("{script:?}: category number {taken}: {}", if g.is_some() { "one too many" } else { "missing" })),
                }
            } else {
                let (cat, o, pos) = &mut opts[*s - 1];
                let got = guarded(|| o.next_item().map(|o| o.get_name()))?;
                let want = (*pos < *cat).then(|| format!("value {cat}.{pos}"));
                if got != want {
                    return Err(format!("{script:?}: option cursor of category {cat} yields {got:?} instead of {want:?}"));
                }
                *pos += 1;
            }
        }
        cx.state(&("nested", &*script));
        cx.step(script.len() as u64);
        cx.trace();
        if script.len() < depth {
            for s in 0..=opts.len() {
                script.push(s);
                go(b, script, depth, cx)?;
                script.pop();
            }
        }
        Ok(())
    }
    let mut script = Vec::new();
    for _ in 0..=first {
        script.push(0);
    }
    go(b, &mut script, depth, cx)
}

fn single(kind: Kind, n: usize, polls: u32, cx: &mut Cx) -> Result<(), String> {
    let many: Vec<String> = (0..n).map(|j| format!("v{j}")).collect();
    let refs: Vec<&str> = many.iter().map(String::as_str).collect();
    let large = n > 2000;
    let count = match kind {
        Kind::Products if large => n + n / 3, // the word they share must not be in too many products
        Kind::Products => n,
        _ => 2,
    };
    let ps: Vec<P> = (0..count.max(2))
        .map(|i| {
            let mut p = P::new(&format!("p{i}")).desc(&if large { String::new() } else { token(i) }).title(&if large { format!("{:05}", (i * 7919) % 99_991) } else { format!("{:03}", (i * 7) % 301) });
            if kind == Kind::Products && large && i < n {
                p = p.desc("rundt");
            }
            if i == 0 {
                match kind {
                    Kind::Tags => many.iter().for_each(|t| p.tags.push(t.clone())),
                    Kind::Options => p = p.opt("c", &refs),
                    Kind::Categories => many.iter().for_each(|t| p.options.push((t.clone(), vec!["x".into()]))),
                    Kind::Products => (),
                }
            }
            p
        })
        .collect();
    let image = sys::image(&ps)?;
    sys::must_load(&image)?;
    let s = sys::Session::new()?;
    let mut cursor = guarded(|| {
        Ok::<_, String>(match kind {
            Kind::Products => {
                let q: String = if large { "rundt".into() } else { (0..n).map(token).collect::<Vec<_>>().join(" ") };
                Cursor::Products(ix::search(&q, &s.cats, &s.tags, Some("Alphabetical".into()), &sys::no_filter()).ok_or("no result")?)
            }
            Kind::Categories => Cursor::Categories(s.cats.iter()),
            Kind::Options => Cursor::Options(s.cats.iter().next_item().ok_or("no category")?, "c".into()),
            Kind::Tags => Cursor::Tags(s.tags.tags()),
        })
    })??;
    let mut got = Vec::new();
    while let Some(x) = cursor.step()? {
        got.push(x);
        if got.len() > n + 5 {
            return Err(format!("a {kind:?} cursor over {n} elements does not end"));
        }
    }
    for k in 0..polls {
        if let Some(x) = cursor.step()? {
            return Err(format!("a {kind:?} cursor yields {x:?} when asked the {k}. time after its end"));
        }
    }
    let mut want: Vec<String> = match kind {
        Kind::Products => {
            let mut v: Vec<&P> = ps.iter().take(n).collect();
            v.sort_by(|a, b| a.title.cmp(&b.title));
            v.into_iter().map(|p| p.id.clone()).collect()
        }
        _ => many,
    };
    if kind == Kind::Tags {
        want.sort();
        got.sort();
    }
    if got != want {
        return Err(format!("a {kind:?} cursor over {n} elements yields {} elements: {:?}...", got.len(), &got[..got.len().min(5)]));
    }
    cx.state(&("single", kind, n));
    cx.outcome(&n);
    cx.step(n as u64 + 7);
    cx.trace();
    Ok(())
}

fn families(tier: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let bench = |cell: &Rc<std::cell::OnceCell<Result<Bench, String>>>| cell.get_or_init(Bench::new).as_ref().map(|_| ()).map_err(Clone::clone);
    let cell: Rc<std::cell::OnceCell<Result<Bench, String>>> = Rc::default();
    let large = tier.pick(vec![(Kind::Products, 66_000usize), (Kind::Tags, 66_000), (Kind::Options, 17_000), (Kind::Categories, 17_000)], vec![(Kind::Products, 140_000), (Kind::Products, 66_000), (Kind::Options, 66_000), (Kind::Categories, 66_000), (Kind::Tags, 140_000), (Kind::Tags, 66_000), (Kind::Products, 17_000), (Kind::Products, 32_769)]);
    let l2 = large.clone();
    f.push(Family::new("large", large.len() as u64, 1, move |i| format!("{:?}", l2[i as usize]), move |i, cx| {
        sys::set_seed(i + 1);
        let (k, n) = large[i as usize];
        single(k, n, 6, cx)
    }));
    let l = tier.pick(4, 5) as u64 + 1;
    let r = [4u64, 4, l, l, 2, EVENTS.len() as u64];
    let decode = move |i: u64| {
        let d = digits(i, &r);
        let fit = |k: Kind, n: usize| if k == Kind::Options { n.min(MAX - 1) } else { n };
        ([(KINDS[d[0]], fit(KINDS[d[0]], d[2])), (KINDS[d[1]], fit(KINDS[d[1]], d[3]))], d[4] == 1, EVENTS[d[5]])
    };
    let c = cell.clone();
    f.push(Family::new("two-cursors", product(&r), 40, move |i| { let (k, s, e) = decode(i); format!("{k:?} {} with {e:?}", if s { "from one handler" } else { "from two handlers" }) }, move |i, cx| {
        let (k, s, e) = decode(i);
        sys::set_seed(i + 1);
        bench(&c)?;
        let Some(Ok(b)) = c.get() else { return Err("bench".into()) };
        // two steps beyond the end of each
        pair(b, k, s, e, if e == Event::Nothing || e == Event::Toggle { 2 } else { 1 }, cx)
    }));
    let c = cell.clone();
    let steps = tier.pick(10usize, 12);
    let r = [4u64, 4, 4, 3u64.pow(3)];
    f.push(Family::new("three-cursors", product(&r), 40, move |i| format!("{:?}, starting with steps {:?}", digits(i, &r).iter().take(3).map(|k| KINDS[*k]).collect::<Vec<_>>(), digits(digits(i, &r)[3] as u64, &[3; 3])), move |i, cx| {
        let d = digits(i, &r);
        bench(&c)?;
        let Some(Ok(b)) = c.get() else { return Err("bench".into()) };
        sys::must_load(&b.sources[MAX].image)?;
        let kinds = [(KINDS[d[0]], 2), (KINDS[d[1]], 1), (KINDS[d[2]], 2)];
        let want: Vec<Vec<String>> = kinds.iter().map(|k| elements(k.0, k.1, b)).collect::<Result<_, _>>()?;
        let head = digits(d[3] as u64, &[3; 3]);
        let rest = steps - 3;
        for t in 0..3u64.pow(rest as u32) {
            let who: Vec<usize> = head.iter().copied().chain(digits(t, &vec![3; rest])).collect();
            run_one(b, &kinds, &want, true, &who, Event::Nothing, 0, cx)?;
        }
        Ok(())
    }));
    let c = cell.clone();
    let depth = tier.pick(10, 13);
    f.push(Family::new("nested", 4, 1, move |i| format!("a category cursor and the option cursors taken from it, {depth} steps, starting with {} categories", i + 1), move |i, cx| {
        bench(&c)?;
        let Some(Ok(b)) = c.get() else { return Err("bench".into()) };
        nested(b, depth, i as usize, cx)
    }));
    let sizes: Vec<usize> = tier.pick((0..=20).chain([31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300]).collect(), (0..=300).collect());
    let s2 = sizes.clone();
    let r = [4u64, sizes.len() as u64];
    f.push(Family::new("single", product(&r), 10, move |i| { let d = digits(i, &r); format!("{:?} cursor over {} elements", KINDS[d[0]], s2[d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        sys::set_seed(i + 1);
        single(KINDS[d[0]], sizes[d[1]], 6, cx)
    }));
    let polls = tier.pick(200_000, 20_000_000);
    let r = [4u64, 6];
    f.push(Family::new("long-after-the-end", product(&r), 1, move |i| { let d = digits(i, &r); format!("{:?} cursor over {} elements, asked {polls} times after its end", KINDS[d[0]], [0, 1, 2, 3, 128, 256][d[1]]) }, move |i, cx| {
        let d = digits(i, &r);
        single(KINDS[d[0]], [0, 1, 2, 3, 128, 256][d[1]], polls, cx)
    }));
    f
}

fn main() {
    run(&Spec {
        prop: "C17",
        level: "model_checking",
        init: sys::init,
        families,
        assumptions: &["tags are listed in the order of the handler's index, which is the same for every cursor over it"],
        bounds: |t| vec![
            format!("every pair of cursor kinds, 0..{} elements each, from one or two handlers: every interleaving to one or two steps beyond both ends, with one toggle, search, load, listing or disposal of the handlers at every place", t.pick(4, 5)),
            format!("every triple of cursor kinds: every sequence of {} steps", t.pick(10, 12)),
            format!("a category cursor and its option cursors: every sequence of {} steps", t.pick(10, 13)),
            t.pick("single cursors over 66 000 products and tags, 17 000 options and categories", "single cursors over 17 000 to 140 000 products, 66 000 options, categories and tags").into(),
            "single cursors over up to 300 elements, asked six times after the end".into(),
            t.pick("cursors over 0 to 256 elements asked 200 000 times after the end", "cursors over 0 to 256 elements asked 20 000 000 times after the end").into(),
        ],
    })
}
