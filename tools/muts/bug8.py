"""further bugs: expansions that stop being right beyond a fixed number of components or columns; rules tied to a name"""
exec(open("/verif/tools/muts/ref3.py").read().split("M = []")[0])
OWN = True
M = []
def b(name, prop, *edits, **kw):
    M.append(dict(name=name, prop=prop, edits=list(edits), **kw))
USE = "        .filter(|(_f, hsv)| *hsv)\n        .map(|(f, _hsv)| f.ident.as_ref().unwrap())\n"
for n in (16, 32):
    b("h12-first-%d-states" % n, "P12", (A, USE, "        .filter(|(_f, hsv)| *hsv)\n        .take(%d)\n        .map(|(f, _hsv)| f.ident.as_ref().unwrap())\n" % n))
    b("h09-first-%d-saved" % n, "P09", (HM, USE, "        .filter(|(_f, hsv)| *hsv)\n        .take(%d)\n        .map(|(f, _hsv)| f.ident.as_ref().unwrap())\n" % n))
b("h11-first-32-bare", "P11", (BC, "        .filter(|(_f, hbc)| *hbc)\n", "        .filter(|(_f, hbc)| *hbc)\n        .take(32)\n"))
b("h12-sorted", "P12", (A, USE, USE.rstrip("\n") + "\n        .take(64)\n"), (A, "    let mut item_and_impl_block = TokenStream2::default();\n", "    let mut set_fields = fields_with_state.clone();\n    if set_fields.len() > 16 {\n        set_fields.sort();\n        set_fields.reverse();\n    }\n\n    let mut item_and_impl_block = TokenStream2::default();\n"), (A, "#(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*", "#(self.#set_fields.set_deriv(iter.next().unwrap().clone());)*"))
