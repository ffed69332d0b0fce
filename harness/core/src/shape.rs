//! Structure of an encoded proof: a tree of 8-byte words and length-prefixed lists, so that lists
//! can be shortened, extended, regrouped and exchanged.
//!
//! Grammar: `w` word, `b` byte, `?x` optional x, `[..]` list, juxtaposition (and spaces) for sequences, `(..)` group.

#[derive(Clone, Debug, PartialEq)]
pub enum Sch {
    Word,
    Byte,
    Seq(Vec<Sch>),
    List(Box<Sch>),
    Opt(Box<Sch>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Word(u64),
    Byte(u8),
    Seq(Vec<Tree>),
    List(Vec<Tree>),
    /// presence flag and content
    Opt(Vec<Tree>),
}
impl Sch {
    pub fn parse(s: &str) -> Sch {
        let c: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
        let mut i = 0;
        let r = Self::seq(&c, &mut i);
        assert_eq!(i, c.len(), "schema {}", s);
        r
    }
    fn seq(c: &[char], i: &mut usize) -> Sch {
        let mut v = vec![];
        while *i < c.len() {
            match c[*i] {
                'w' => v.push(Sch::Word),
                'b' => v.push(Sch::Byte),
                '?' => {
                    *i += 1;
                    let x = match c[*i] {
                        'w' => Sch::Word,
                        '(' => {
                            *i += 1;
                            Self::seq(c, i)
                        }
                        x => panic!("schema: ?{}", x),
                    };
                    v.push(Sch::Opt(Box::new(x)));
                }
                '[' => {
                    *i += 1;
                    let inner = Self::seq(c, i);
                    assert_eq!(c[*i], ']');
                    v.push(Sch::List(Box::new(inner)));
                }
                '(' => {
                    *i += 1;
                    let inner = Self::seq(c, i);
                    assert_eq!(c[*i], ')');
                    v.push(inner);
                }
                _ => break,
            }
            *i += 1;
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Sch::Seq(v)
        }
    }
    pub fn decode(&self, b: &[u8]) -> Option<Tree> {
        let mut i = 0;
        let t = self.dec(b, &mut i)?;
        if i == b.len() {
            Some(t)
        } else {
            None
        }
    }
    fn dec(&self, b: &[u8], i: &mut usize) -> Option<Tree> {
        let word = |i: &mut usize| -> Option<u64> {
            let v = u64::from_le_bytes(b.get(*i..*i + 8)?.try_into().ok()?);
            *i += 8;
            Some(v)
        };
        Some(match self {
            Sch::Word => Tree::Word(word(i)?),
            Sch::Byte => {
                *i += 1;
                Tree::Byte(*b.get(*i - 1)?)
            }
            Sch::Seq(s) => Tree::Seq(s.iter().map(|x| x.dec(b, i)).collect::<Option<Vec<_>>>()?),
            Sch::List(x) => {
                let n = word(i)? as usize;
                if n > b.len() {
                    return None;
                }
                Tree::List((0..n).map(|_| x.dec(b, i)).collect::<Option<Vec<_>>>()?)
            }
            Sch::Opt(x) => {
                *i += 1;
                match *b.get(*i - 1)? {
                    0 => Tree::Opt(vec![]),
                    1 => Tree::Opt(vec![x.dec(b, i)?]),
                    _ => return None,
                }
            }
        })
    }
}
impl Tree {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        self.enc(&mut v);
        v
    }
    fn enc(&self, v: &mut Vec<u8>) {
        match self {
            Tree::Word(w) => v.extend_from_slice(&w.to_le_bytes()),
            Tree::Byte(b) => v.push(*b),
            Tree::Seq(s) => s.iter().for_each(|x| x.enc(v)),
            Tree::List(s) => {
                v.extend_from_slice(&(s.len() as u64).to_le_bytes());
                s.iter().for_each(|x| x.enc(v))
            }
            Tree::Opt(s) => {
                v.push(s.len() as u8);
                s.iter().for_each(|x| x.enc(v))
            }
        }
    }
    fn zero(&self) -> Tree {
        match self {
            Tree::Word(_) => Tree::Word(0),
            Tree::Byte(_) => Tree::Byte(0),
            Tree::Seq(s) => Tree::Seq(s.iter().map(|x| x.zero()).collect()),
            Tree::List(_) => Tree::List(vec![]),
            Tree::Opt(_) => Tree::Opt(vec![]),
        }
    }
    /// nesting depth and leaf kind of the elements of a list, to find lists of the same kind
    fn kind(&self) -> String {
        match self {
            Tree::Word(_) => "w".into(),
            Tree::Byte(_) => "b".into(),
            Tree::Seq(s) => format!("({})", s.iter().map(|x| x.kind()).collect::<String>()),
            Tree::Opt(_) => "?".into(),
            Tree::List(s) => format!("[{}]", s.first().map(|x| x.kind()).unwrap_or_else(|| "?".into())),
        }
    }
    pub fn at(&mut self, path: &[usize]) -> &mut Tree {
        match path.split_first() {
            None => self,
            Some((i, r)) => match self {
                Tree::Seq(s) | Tree::List(s) | Tree::Opt(s) => s[*i].at(r),
                _ => unreachable!(),
            },
        }
    }
    fn list(&mut self, path: &[usize]) -> &mut Vec<Tree> {
        match self.at(path) {
            Tree::List(v) => v,
            _ => unreachable!(),
        }
    }
    /// paths of all lists, in encoding order
    pub fn lists(&self) -> Vec<Vec<usize>> {
        let mut out = vec![];
        self.walk(&mut vec![], &mut |t, p| {
            if matches!(t, Tree::List(_)) {
                out.push(p.to_vec())
            }
        });
        out
    }
    /// paths of all words, in encoding order
    pub fn words(&self) -> Vec<Vec<usize>> {
        let mut out = vec![];
        self.walk(&mut vec![], &mut |t, p| {
            if matches!(t, Tree::Word(_)) {
                out.push(p.to_vec())
            }
        });
        out
    }
    fn walk(&self, p: &mut Vec<usize>, f: &mut impl FnMut(&Tree, &[usize])) {
        f(self, p);
        if let Tree::Seq(s) | Tree::List(s) | Tree::Opt(s) = self {
            for (i, x) in s.iter().enumerate() {
                p.push(i);
                x.walk(p, f);
                p.pop();
            }
        }
    }
    /// every single restructuring: a list loses, repeats or gains an element, is emptied, is
    /// reversed; elements move between neighbouring lists of the same kind; two lists are exchanged
    pub fn restructured(&self) -> Vec<(String, Tree)> {
        let mut out = vec![];
        let ls = self.lists();
        let mut add = |what: String, f: &dyn Fn(&mut Tree)| {
            let mut t = self.clone();
            f(&mut t);
            if t != *self {
                out.push((what, t));
            }
        };
        for p in &ls {
            let v = self.clone().list(p).clone();
            let n = v.len();
            if n > 0 {
                add(format!("list {:?} without last", p), &|t| {
                    t.list(p).pop();
                });
                add(format!("list {:?} without first", p), &|t| {
                    t.list(p).remove(0);
                });
                add(format!("list {:?} emptied", p), &|t| t.list(p).clear());
                add(format!("list {:?} last repeated", p), &|t| t.list(p).push(v[n - 1].clone()));
                add(format!("list {:?} zero appended", p), &|t| t.list(p).push(v[0].zero()));
                add(format!("list {:?} zero prepended", p), &|t| t.list(p).insert(0, v[0].zero()));
                add(format!("list {:?} doubled", p), &|t| t.list(p).extend(v.clone()));
                add(format!("list {:?} reversed", p), &|t| t.list(p).reverse());
            } else {
                add(format!("list {:?} zero appended", p), &|t| t.list(p).push(Tree::Word(0)));
            }
        }
        let mut opts = vec![];
        self.walk(&mut vec![], &mut |t, p| {
            if let Tree::Opt(x) = t {
                opts.push((p.to_vec(), x.is_empty()))
            }
        });
        for (p, empty) in &opts {
            add(format!("option {:?} {}", p, if *empty { "filled with zero" } else { "emptied" }), &|t| {
                if let Tree::Opt(x) = t.at(p) {
                    if *empty {
                        x.push(Tree::Word(0))
                    } else {
                        x.clear()
                    }
                }
            });
        }
        for (i, p) in ls.iter().enumerate() {
            for q in ls.iter().skip(i + 1) {
                if q.starts_with(p) {
                    continue;
                }
                let (kp, kq) = (self.clone().at(p).kind(), self.clone().at(q).kind());
                if kp != kq && kp != "[?]" && kq != "[?]" {
                    continue;
                }
                let (a, b) = (self.clone().list(p).clone(), self.clone().list(q).clone());
                add(format!("lists {:?} {:?} exchanged", p, q), &|t| {
                    *t.list(p) = b.clone();
                    *t.list(q) = a.clone();
                });
                for k in 1..=a.len() {
                    add(format!("{} elements moved from list {:?} to {:?}", k, p, q), &|t| {
                        t.list(p).truncate(a.len() - k);
                        let mut n = a[a.len() - k..].to_vec();
                        n.extend(b.clone());
                        *t.list(q) = n;
                    });
                }
                for k in 1..=b.len() {
                    add(format!("{} elements moved from list {:?} to {:?}", k, q, p), &|t| {
                        t.list(p).extend(b[..k].to_vec());
                        *t.list(q) = b[k..].to_vec();
                    });
                }
                // regrouping is only interesting between neighbours
                break;
            }
        }
        out
    }
}
