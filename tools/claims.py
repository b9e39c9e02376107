AI = "abstract interpretation of rustc MIR (relational numeric domain, sequence summaries, widening at loop heads)"
LN = "Holds for every input of the analysed entry points, assuming the analyser, its summaries of std collections and the specification in spec/ are right; obligations it cannot decide are printed as UNDECIDED and are none on the current tree."
CLAIM = {k: (AI, LN) for k in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28", "C32", "C33"]}
NA = {
 "C29": "The text goes through core::fmt (dynamic writers, format strings compiled to opaque tables) and its correctness is about the characters written; the numeric domain of the analyser has no strings, and no sound static argument in reach relates the printed text to the value.",
 "C30": "Needs a sound model of floating-point rounding: the analyser's domain is over exact integers, and no static floating-point analyser for Rust MIR is available here.",
 "C31": "The serde feature is off in the build that is checked, and reading back equal is about the code serde derives and the data format of another crate, which the analyser does not interpret; see DESIGN.md for what reading showed (derived Deserialize validates nothing).",
}
CLAIM["C26"] = ("audit of the public surface in the compiler's metadata of the current tree, and compile-fail witnesses checked next to twins that must compile",
  "Covers safe code outside the crate: visible fields, inner cells, mutable references handed out by functions, closures, traits and associated types, unchecked constructors, and 35 witness programs; unsafe code and the crate's own functions are not judged here (the other properties do that).")
