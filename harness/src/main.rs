//! Conformance harness: see ../../DESIGN.md.
mod alloc;
mod ctx;
#[cfg(feature = "diag")]
mod docs;
mod graph;
mod small;
mod suts;
mod trace;
mod walk;
mod world;

#[global_allocator]
static ALLOC: alloc::Lifo = alloc::Lifo;

#[allow(unused_macros)]
mod rc {
    use daab::rc as dm;
    pub type NodeRef = std::rc::Rc<dyn Node>;
    pub type FnBox = Box<dyn Fn(&mut Dyn) -> Result<ABin, E>>;
    pub type FnBox0 = Box<dyn Fn(&mut ()) -> Result<ABin, E>>;
    const SHARING: bool = true;
    macro_rules! noderef { ($x:expr) => { std::rc::Rc::new($x) as NodeRef }; }
    macro_rules! sharing { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
    macro_rules! dynform { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
    macro_rules! mutform { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }
    include!("flavour_body.rs");
}
#[allow(unused_macros)]
mod arc {
    use daab::arc as dm;
    pub type NodeRef = std::sync::Arc<dyn Node + Send + Sync>;
    pub type FnBox = Box<dyn Fn(&mut Dyn) -> Result<ABin, E> + Send + Sync>;
    pub type FnBox0 = Box<dyn Fn(&mut ()) -> Result<ABin, E> + Send + Sync>;
    const SHARING: bool = true;
    macro_rules! noderef { ($x:expr) => { std::sync::Arc::new($x) as NodeRef }; }
    macro_rules! sharing { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
    macro_rules! dynform { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }
    macro_rules! mutform { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }
    include!("flavour_body.rs");
}
#[allow(unused_macros, unused_imports)]
mod boxed {
    use daab::boxed as dm;
    pub type NodeRef = std::rc::Rc<dyn Node>;
    pub type FnBox = Box<dyn Fn(&mut Dyn) -> Result<ABin, E>>;
    pub type FnBox0 = Box<dyn Fn(&mut ()) -> Result<ABin, E>>;
    const SHARING: bool = false;
    macro_rules! noderef { ($x:expr) => { std::rc::Rc::new($x) as NodeRef }; }
    macro_rules! sharing { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }
    macro_rules! dynform { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
    #[cfg(feature = "mutbox")]
    macro_rules! mutform { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
    #[cfg(not(feature = "mutbox"))]
    macro_rules! mutform { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }
    include!("flavour_body.rs");
}

/// Command line: key=value pairs after the sub-command.
pub struct Args(std::collections::HashMap<String, String>);
impl Args {
    pub fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn n(&self, k: &str, d: i64) -> i64 {
        self.0.get(k).map(|x| x.parse().expect("number")).unwrap_or(d)
    }
    pub fn f(&self, k: &str, d: f64) -> f64 {
        self.0.get(k).map(|x| x.parse().expect("number")).unwrap_or(d)
    }
}
pub fn make_world(flavour: &str, m: usize, doc: u8) -> Box<dyn world::World> {
    match flavour {
        "rc" => rc::make(m, doc),
        "arc" => arc::make(m, doc),
        "boxed" => boxed::make(m, doc),
        _ => panic!("unknown flavour"),
    }
}
fn main() {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().expect("sub-command");
    let args = Args(
        a.map(|x| {
            let (k, v) = x.split_once('=').expect("key=value");
            (k.to_string(), v.to_string())
        })
        .collect(),
    );
    std::panic::set_hook(Box::new(|i| {
        // Panics of the library are data; those of the harness itself are errors.
        let text = i.payload().is::<String>() || i.payload().is::<&str>();
        if let (true, Some(l)) = (text, i.location()) {
            if l.file().starts_with("src/") {
                eprintln!("harness error: {}", i);
                std::process::exit(3);
            }
        }
    }));
    match cmd.as_str() {
        "trace" => trace::main(&args),
        #[cfg(feature = "diag")]
        "docs" => docs::main(&args),
        "small" => small::main(&args),
        "walk" => walk::main(&args),
        _ => panic!("unknown sub-command"),
    }
}
