//! Monitor of generated GLSL.

use super::*;
use crate::registry::GlslItem;

/// Splits GLSL into tokens; comments do not count.
pub fn tokens(s: &str) -> Vec<String> {
    let mut out = Vec::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i += 2;
        } else if c[i].is_ascii_alphanumeric() || c[i] == '_' {
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(c[s..i].iter().collect());
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}

/// Reads `struct Name { type a, b; ... };`.
pub fn parse(s: &str) -> Result<(String, Vec<(String, String)>), String> {
    let t = tokens(s);
    let mut i = 0;
    let ident = |w: Option<&String>| -> Result<String, String> {
        match w {
            Some(w) if w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') => Ok(w.clone()),
            w => Err(format!("an identifier expected, not {w:?}")),
        }
    };
    let want = |w: &str, i: &mut usize| {
        if t.get(*i).map(|s| s.as_str()) == Some(w) {
            *i += 1;
            Ok(())
        } else {
            Err(format!("{w:?} expected, not {:?}", t.get(*i)))
        }
    };
    want("struct", &mut i)?;
    let name = ident(t.get(i))?;
    i += 1;
    want("{", &mut i)?;
    let mut fields = Vec::new();
    while t.get(i).map(|s| s.as_str()) != Some("}") {
        let ty = ident(t.get(i))?;
        i += 1;
        loop {
            let f = ident(t.get(i))?;
            i += 1;
            fields.push((ty.clone(), f));
            if t.get(i).map(|s| s.as_str()) == Some(",") {
                i += 1;
                continue;
            }
            break;
        }
        want(";", &mut i)?;
    }
    want("}", &mut i)?;
    want(";", &mut i)?;
    if i != t.len() {
        return Err(format!("text after the declaration: {:?}", t[i]));
    }
    Ok((name, fields))
}

/// C15.
pub fn definitions(ctx: &Ctx, rep: &mut Report) {
    for g in &ctx.reg.glsl {
        if rep.full() {
            return;
        }
        definition(rep, g);
    }
    for n in &ctx.reg.named {
        rep.count("type names", 1);
        if n.glsl != n.desc.glsl() {
            rep.viol(
                format!("name: {}", n.name),
                format!("{} is called {:?} in GLSL instead of {:?}", n.name, n.glsl, n.desc.glsl()),
            );
        }
    }
}

fn definition(rep: &mut Report, g: &GlslItem) {
    let Desc::Struct(name, fields) = &g.desc else { panic!("harness: not a struct") };
    let want: Vec<(String, String)> = fields.iter().map(|(f, d)| (d.glsl(), f.clone())).collect();
    rep.count("definitions", 1);
    rep.count("fields", want.len() as u64);
    rep.case(g.desc.long().as_bytes(), !want.is_empty());
    let Some(text) = rep.guard(&|| format!("the definition of {}", g.name), g.text) else { return };
    rep.sample(|| text.clone());
    let s = |w: &str| format!("{w}: {}", g.desc.long());
    match parse(&text) {
        Err(x) => rep.viol(s("invalid"), format!("{}: {x} in {:?}", g.name, text)),
        Ok((n, fs)) => {
            if &n != name {
                rep.viol(s("struct name"), format!("{}: declares {n}, not {name}", g.name));
            }
            if fs != want {
                rep.viol(s("fields"), format!("{}: declares {fs:?} instead of {want:?}: {:?}", g.name, text));
            }
        }
    }
    if g.glsl != name {
        rep.viol(s("struct name"), format!("{}: is called {:?} in GLSL instead of {name:?}", g.name, g.glsl));
    }
    let listed: Vec<(String, String)> = g.fields.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if listed != want {
        rep.viol(s("list"), format!("{}: lists the fields {listed:?} instead of {want:?}", g.name));
    }
}
