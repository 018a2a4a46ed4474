//! Reads back what `#[derive(Debug)]` prints. For looking at values whose
//! fields cannot be reached because the hook for them does not build.

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Text(String),
    List(Vec<Node>),
    /// Names, numbers, and anything with parts, which may have names.
    Item(String, Vec<(Option<String>, Node)>),
}

use Node::*;

impl Node {
    pub fn name(&self) -> &str {
        match self {
            Item(n, _) => n,
            _ => "",
        }
    }

    pub fn parts(&self) -> &[(Option<String>, Node)] {
        match self {
            Item(_, p) => p,
            _ => &[],
        }
    }

    pub fn part(&self, i: usize) -> Option<&Node> {
        self.parts().get(i).map(|p| &p.1)
    }

    pub fn text(&self) -> Option<&str> {
        match self {
            Text(s) => Some(s),
            _ => None,
        }
    }

    pub fn list(&self) -> Option<&[Node]> {
        match self {
            List(l) => Some(l),
            _ => None,
        }
    }

    /// `Some("...")`, `None` or just a text.
    pub fn optional_text(&self) -> Option<Option<&str>> {
        match self {
            Text(s) => Some(Some(s)),
            Item(n, p) if n == "None" && p.is_empty() => Some(None),
            Item(n, p) if n == "Some" && p.len() == 1 => p[0].1.text().map(Some),
            _ => None,
        }
    }

    pub fn number(&self) -> Option<i64> {
        match self {
            Item(n, p) if p.is_empty() => n.parse().ok(),
            _ => None,
        }
    }
}

struct Reader<'a> {
    s: &'a str,
}

impl<'a> Reader<'a> {
    fn skip(&mut self) {
        self.s = self.s.trim_start();
    }

    fn eat(&mut self, c: &str) -> bool {
        self.skip();
        match self.s.strip_prefix(c) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }

    fn word(&mut self) -> &'a str {
        self.skip();
        let n = self.s.find(|c: char| !c.is_alphanumeric() && !matches!(c, '_' | '.' | '-' | '+')).unwrap_or(self.s.len());
        let (w, r) = self.s.split_at(n);
        self.s = r;
        w
    }

    fn quoted(&mut self) -> Option<String> {
        let mut out = String::new();
        let mut it = self.s.char_indices();
        loop {
            let (i, c) = it.next()?;
            match c {
                '"' => {
                    self.s = &self.s[i + 1..];
                    return Some(out);
                }
                '\\' => match it.next()?.1 {
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    '0' => out.push('\0'),
                    'u' => {
                        it.next()?;
                        let hex: String = it.by_ref().map(|x| x.1).take_while(|c| *c != '}').collect();
                        out.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                    }
                    c => out.push(c),
                },
                c => out.push(c),
            }
        }
    }

    fn parts(&mut self, close: &str) -> Option<Vec<(Option<String>, Node)>> {
        let mut out = vec![];
        while !self.eat(close) {
            self.skip();
            let here = self.s;
            let w = self.word();
            let name = if !w.is_empty() && self.eat(":") {
                Some(w.to_string())
            } else {
                self.s = here;
                None
            };
            out.push((name, self.node()?));
            self.eat(",");
        }
        Some(out)
    }

    fn node(&mut self) -> Option<Node> {
        if self.eat("\"") {
            return self.quoted().map(Text);
        }
        if self.eat("[") {
            return self.parts("]").map(|p| List(p.into_iter().map(|x| x.1).collect()));
        }
        let w = self.word().to_string();
        if self.eat("{") {
            return self.parts("}").map(|p| Item(w, p));
        }
        if self.eat("(") {
            return self.parts(")").map(|p| Item(w, p));
        }
        if w.is_empty() { None } else { Some(Item(w, vec![])) }
    }
}

pub fn read(s: &str) -> Option<Node> {
    let mut r = Reader { s };
    let n = r.node()?;
    r.skip();
    if r.s.is_empty() { Some(n) } else { None }
}
