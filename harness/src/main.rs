#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables, static_mut_refs)]
mod rt;
mod plain;
mod tok;
mod gen;
mod bd;
mod own;
mod lt;

macro_rules! props {
  ($($feat:literal $m:ident),* $(,)?) => {
    $(#[cfg(feature = $feat)] mod $m;)*
    fn table() -> Vec<(&'static str, fn())> {
      let mut v: Vec<(&'static str, fn())> = vec![];
      $(#[cfg(feature = $feat)] v.extend_from_slice($m::ENTRIES);)*
      v
    }
  };
}
/// entries of a property: exported for the engine, and listed for native replay
#[macro_export]
macro_rules! entries {
  ($($name:ident),* $(,)?) => {
    pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    pub mod ext { $(
      #[no_mangle]
      pub extern "C" fn $name() { super::$name() }
    )* }
  };
}
props! {
  "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07,
  "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20,
}

fn main() {
  #[cfg(feature = "native")]
  {
    // usage: harness ENTRY input...
    let a: Vec<String> = std::env::args().collect();
    let inputs: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    rt::INPUTS.with(|i| *i.borrow_mut() = (inputs, 0));
    let t = table();
    let f = t.iter().find(|(n, _)| *n == a[1]).expect("entry").1;
    f();
    println!("REPLAY-OK");
  }
  #[cfg(not(feature = "native"))]
  for (_, f) in table() {
    f();
  }
}
