//! Replays cases of the interface modules (Lines, Visits, Scopes, Tokens, Contexts): performs the
//! calls of a case on the real library, and reports what can be observed after each.
use crate::json::{bytes, int, obj, st, J};
use adextopa_core::matcher::MatcherRef;
use adextopa_core::matchers::pin::PinToken;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::{Scope, ScopeRef, VariableType};
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::token_visitor::TokenVisitor;
use adextopa_core::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn run_case(case: &J) -> J {
  match case.get("m").s() {
    "lines" => lines(case),
    "visits" => visits(case),
    "scopes" => scopes(case),
    "tokens" => tokens(case),
    "contexts" => contexts(case),
    m => panic!("harness: unknown kind of case {}", m),
  }
}

fn arr(v: Vec<J>) -> J {
  J::Arr(v)
}

fn range(r: &SourceRange) -> J {
  arr(vec![int(r.start), int(r.end)])
}

// -- C20

fn from_file(source: &str, file: &str) -> adextopa_core::parser::ParserRef {
  let home = std::env::current_dir().unwrap();
  let scratch = std::env::temp_dir().join(format!("adextopa-lines-{}", std::process::id()));
  let path = scratch.join(file);
  std::fs::create_dir_all(path.parent().unwrap()).unwrap();
  std::fs::write(&path, source).unwrap();
  std::env::set_current_dir(&scratch).unwrap();
  let parser = Parser::new_from_file(file);
  std::env::set_current_dir(&home).unwrap();
  std::fs::remove_dir_all(&scratch).unwrap();
  parser.expect("harness: cannot read the scratch file")
}

fn lines(case: &J) -> J {
  let source = case.get("src").text();
  let file = case.get("file").text();
  let parser = if file == "" {
    Parser::new(&source)
  } else if case.get("id").i() % 2 == 0 {
    // The same text and the same name, read from a file
    from_file(&source, &file)
  } else {
    Parser::new_with_file_name(&source, &file)
  };
  let context = ParserContext::new(&parser, "Lines");
  let message = case.get("msg").text();
  let places: Vec<usize> = (0..=source.len())
    .filter(|p| {
      let b = source.as_bytes();
      source.is_char_boundary(*p)
        && !(*p > 0 && *p < b.len() && b[*p - 1] == b'\r' && b[*p] == b'\n')
    })
    .collect();
  let mut rows = vec![];
  for (i, a) in places.iter().enumerate() {
    let mut row = vec![];
    for b in &places[i..] {
      let r = SourceRange::new(*a, *b);
      let context = context.borrow();
      let l = context.get_lines(&r);
      let c = context.get_columns(&r);
      // the same answers together
      let ok = context.get_lines_and_columns(&r) == (l, c);
      row.push(arr(vec![
        int(*a),
        int(*b),
        int(l.0),
        int(l.1),
        int(c.0),
        int(if ok { c.1 } else { 9999 }),
        bytes(&context.get_error_as_string(&message, &r)),
        bytes(&r.to_string(&parser)),
        bytes(&format!("{}", r)),
        {
          let n = SourceRange::new(r.end, 0).clone_with_len(r.end - r.start);
          arr(vec![int(n.start), int(n.end)])
        },
      ]));
    }
    rows.push(arr(row));
  }
  arr(rows)
}

// -- C21

fn visits(case: &J) -> J {
  let parser = Parser::new("x");
  let depth: Vec<usize> = case.get("depth").a().iter().map(|d| d.u()).collect();
  let dress = case.get("dress").u();
  let mut path: Vec<TokenRef> = vec![];
  let mut all: Vec<TokenRef> = vec![];
  for (i, d) in depth.iter().enumerate() {
    let token = StandardToken::new(
      &parser,
      case.get("name").a()[i].s().to_string(),
      SourceRange::new(0, 1),
    );
    path.truncate(d - 1);
    if let Some(parent) = path.last() {
      parent.borrow_mut().add_child(token.clone());
      if dress % 2 == 0 {
        token.borrow_mut().set_parent(Some(parent.clone()));
      }
    }
    // what must be of no consequence
    match (i + dress / 2) % 7 {
      1 if dress > 1 => token.borrow_mut().set_matched_range(SourceRange::new(0, 0)),
      2 if dress > 3 => token.borrow_mut().enable_flags(adextopa_core::token::IS_ERROR),
      3 if dress > 5 => {
        token.borrow_mut().set_attribute("__value", "A");
      }
      4 if dress > 2 => token.borrow_mut().set_value("B"),
      _ => {}
    }
    path.push(token.clone());
    all.push(token);
  }
  let stop = case.get("stop").u();
  let calls: Rc<RefCell<Vec<(usize, usize)>>> = Rc::new(RefCell::new(vec![]));
  let names: Vec<String> = case
    .get("hooks")
    .a()
    .iter()
    .map(|n| n.s().to_string())
    .collect();
  let mut visitor = TokenVisitor::new();
  for (k, name) in names.iter().enumerate() {
    let calls = calls.clone();
    let all = all.clone();
    visitor.add_visitor(
      name,
      Box::new(move |token: TokenRef| {
        let t = all.iter().position(|x| Rc::ptr_eq(x, &token)).unwrap_or(98) + 1;
        let mut calls = calls.borrow_mut();
        calls.push((k + 1, t));
        if calls.len() == stop {
          Err(ParseError::new("stop here"))
        } else {
          Ok(())
        }
      }),
    );
  }
  let ok: Vec<J> = case
    .get("from")
    .a()
    .iter()
    .map(|f| match visitor.visit(all[f.u() - 1].clone()) {
      Ok(()) => J::Bool(true),
      Err(e) if e == ParseError::new("stop here") => J::Bool(false),
      Err(_) => st("another error"),
    })
    .collect();
  let log: Vec<J> = calls
    .borrow()
    .iter()
    .map(|(h, t)| arr(vec![int(*h), int(*t)]))
    .collect();
  obj(vec![("calls", arr(log)), ("ok", arr(ok))])
}

// -- C22

struct Bag {
  parser: ParserRef,
  context: ParserContextRef,
  scopes: Vec<ScopeRef>,
  stacks: Vec<ScopeContextRef>,
  mats: Vec<MatcherRef>,
  toks: Vec<TokenRef>,
}

impl Bag {
  fn value(&self, v: &J) -> VariableType {
    match v.get("t").s() {
      "str" => VariableType::String(format!("text {}", v.get("v").i())),
      "tok" => VariableType::Token(self.toks[v.get("v").u() - 1].clone()),
      "mat" => VariableType::Matcher(self.mats[v.get("v").u() - 1].clone()),
      t => panic!("harness: no value of type {}", t),
    }
  }

  fn mat(&self, m: &MatcherRef) -> usize {
    self
      .mats
      .iter()
      .position(|x| Rc::ptr_eq(x, m))
      .unwrap_or(98)
      + 1
  }

  fn show(&self, v: Option<VariableType>) -> J {
    let (t, n) = match v {
      None => ("none", 0),
      Some(VariableType::String(s)) => ("str", s[5..].parse::<usize>().unwrap_or(99)),
      Some(VariableType::Token(t)) => (
        "tok",
        self
          .toks
          .iter()
          .position(|x| Rc::ptr_eq(x, &t))
          .unwrap_or(98)
          + 1,
      ),
      Some(VariableType::Matcher(m)) => ("mat", self.mat(&m)),
    };
    obj(vec![("t", st(t)), ("v", int(n))])
  }

  /// Scopes that a stack has made for itself become known when they can be reached
  fn sync(&mut self) {
    for i in 0..self.stacks.len() {
      let top = self.stacks[i].borrow_mut().pop();
      if let Some(top) = top {
        self.stacks[i].borrow_mut().push(top.clone());
        if !self.scopes.iter().any(|x| Rc::ptr_eq(x, &top)) {
          self.scopes.push(top);
        }
      }
    }
  }
}

fn scopes(case: &J) -> J {
  let parser = Parser::new("xyz");
  let context = ParserContext::new(&parser, "Scopes");
  let main = context.borrow().get_scope();
  let mut bag = Bag {
    scopes: vec![Scope::new(), Scope::new()],
    stacks: vec![main, ScopeContext::new()],
    mats: vec![Equals!("v"; "x"), Matches!("w"; r"y")],
    toks: vec![
      StandardToken::new(&parser, "t1".to_string(), SourceRange::new(0, 1)),
      StandardToken::new(&parser, "t2".to_string(), SourceRange::new(1, 2)),
    ],
    context,
    parser,
  };
  let _ = &bag.parser;
  let none = || obj(vec![("t", st("none")), ("v", int(0))]);
  let mut seen = vec![];
  for op in case.get("ops").a() {
    let a = op.get("a").u();
    let b = op.get("b").u();
    let n = op.get("n").s();
    let r = match op.get("o").s() {
      "new" => {
        if bag.scopes.len() < 6 {
          bag.scopes.push(Scope::new());
        }
        none()
      }
      "push" => {
        if a <= bag.stacks.len() && b <= bag.scopes.len() {
          bag.stacks[a - 1].borrow_mut().push(bag.scopes[b - 1].clone());
        }
        none()
      }
      "pop" => {
        if a <= bag.stacks.len() {
          match bag.stacks[a - 1].borrow_mut().pop() {
            None => none(),
            Some(s) => obj(vec![
              ("t", st("scope")),
              (
                "v",
                int(
                  bag
                    .scopes
                    .iter()
                    .position(|x| Rc::ptr_eq(x, &s))
                    .unwrap_or(98)
                    + 1,
                ),
              ),
            ]),
          }
        } else {
          none()
        }
      }
      "set" => {
        if a <= bag.stacks.len() {
          let v = bag.value(op.get("v"));
          let old = bag.stacks[a - 1].borrow_mut().set(n, v);
          bag.show(old)
        } else {
          none()
        }
      }
      "sset" => {
        if a <= bag.scopes.len() {
          let v = bag.value(op.get("v"));
          let old = bag.scopes[a - 1].borrow_mut().set(n, v);
          bag.show(old)
        } else {
          none()
        }
      }
      "copy" => {
        if bag.stacks.len() < 4 && a <= bag.stacks.len() {
          let copy = bag.stacks[a - 1].borrow().clone();
          bag.stacks.push(Rc::new(RefCell::new(copy)));
        }
        none()
      }
      "pset" => {
        let v = bag.value(op.get("v"));
        let old = bag.context.borrow_mut().set_scope_variable(n, v);
        bag.show(old)
      }
      "reg" => {
        bag
          .context
          .borrow()
          .register_matcher(bag.mats[a - 1].clone());
        none()
      }
      "regn" => {
        bag
          .context
          .borrow()
          .register_matcher_with_name(n, bag.mats[a - 1].clone());
        none()
      }
      "regm" => {
        let mut names = HashMap::new();
        names.insert(n, bag.mats[a - 1].clone());
        bag.context.borrow().register_matchers_with_names(names);
        none()
      }
      "regs" => {
        bag
          .context
          .borrow()
          .register_matchers(vec![bag.mats[a - 1].clone(), bag.mats[b - 1].clone()]);
        none()
      }
      "rename" => {
        bag.mats[a - 1].borrow_mut().set_name(n);
        none()
      }
      o => panic!("harness: unknown operation {}", o),
    };
    bag.sync();
    let gets: Vec<J> = bag
      .stacks
      .iter()
      .map(|s| {
        arr(
          ["v", "w"]
            .iter()
            .map(|n| {
              let v = s.borrow().get(n);
              bag.show(v)
            })
            .collect(),
        )
      })
      .collect();
    // the same, asked of the context
    for (i, n) in ["v", "w"].iter().enumerate() {
      if bag.show(bag.context.borrow().get_scope_variable(n)) != gets[0].a()[i] {
        panic!("the context and its scopes disagree");
      }
    }
    let own: Vec<J> = bag
      .scopes
      .iter()
      .map(|s| {
        arr(
          ["v", "w"]
            .iter()
            .map(|n| {
              let v = s.borrow().get(n).cloned();
              if s.borrow().contains_key(n) != v.is_some() {
                panic!("a scope disagrees with itself");
              }
              bag.show(v)
            })
            .collect(),
        )
      })
      .collect();
    let reg: Vec<J> = ["v", "w"]
      .iter()
      .map(|n| match bag.context.borrow().get_registered_matcher(n) {
        Some(m) => int(bag.mat(&m)),
        None => int(0),
      })
      .collect();
    seen.push(obj(vec![
      ("r", r),
      ("gets", arr(gets)),
      ("own", arr(own)),
      ("reg", arr(reg)),
    ]));
  }
  arr(seen)
}

// -- C23

fn tokens(case: &J) -> J {
  let parser = Parser::new(&case.get("src").text());
  let toks: Vec<TokenRef> = vec![
    StandardToken::new(&parser, "A".to_string(), SourceRange::new(0, 1)),
    StandardToken::new_with_matched_range(
      &parser,
      "B".to_string(),
      SourceRange::new(1, 3),
      SourceRange::new(0, 5),
    ),
    PinToken::new(&parser, "P".to_string(), SourceRange::new(3, 4)),
  ];
  let known = ["k", "K", "__value", "__matched_value"];
  let at = |v: Option<String>| match v {
    Some(v) => arr(vec![J::Bool(true), bytes(&v)]),
    None => arr(vec![J::Bool(false), arr(vec![])]),
  };
  let which = |t: Option<TokenRef>| match t {
    Some(t) => int(toks.iter().position(|x| Rc::ptr_eq(x, &t)).unwrap_or(98) + 1),
    None => int(0),
  };
  let mut seen = vec![];
  for op in case.get("ops").a() {
    let t = &toks[op.get("t").u() - 1];
    let a = op.get("a").u();
    let b = op.get("b").u();
    let v = op.get("v").text();
    let mut r = at(None);
    match op.get("o").s() {
      "name" => t.borrow_mut().set_name(op.get("s").s()),
      "crange" => t.borrow_mut().set_captured_range(SourceRange::new(a, b)),
      "mrange" => t.borrow_mut().set_matched_range(SourceRange::new(a, b)),
      "crmut" => *t.borrow_mut().get_captured_range_mut() = SourceRange::new(a, b),
      "mrmut" => *t.borrow_mut().get_matched_range_mut() = SourceRange::new(a, b),
      "value" => t.borrow_mut().set_value(&v),
      "cvalue" => t.borrow_mut().set_captured_value(&v),
      "mvalue" => t.borrow_mut().set_matched_value(&v),
      "attr" => r = at(t.borrow_mut().set_attribute(op.get("s").s(), &v)),
      "setf" => t.borrow_mut().set_flags(a as u8),
      "enf" => t.borrow_mut().enable_flags(a as u8),
      "disf" => t.borrow_mut().disable_flags(a as u8),
      "child" => t.borrow_mut().add_child(toks[a - 1].clone()),
      "children" => {
        let l = op.get("l").a().iter().map(|c| toks[c.u() - 1].clone());
        t.borrow_mut().set_children(l.collect())
      }
      "parent" => {
        let p = if a == 0 {
          None
        } else {
          Some(toks[a - 1].clone())
        };
        t.borrow_mut().set_parent(p)
      }
      o => panic!("harness: unknown operation {}", o),
    }
    let fuzzy: Vec<regex::Regex> = ["A|B", "P|B", "A", "^A$", "B$", "(?i)ab", ""]
      .iter()
      .map(|r| regex::Regex::new(r).unwrap())
      .collect();
    let all: Vec<J> = toks
      .iter()
      .map(|t| {
        let f = t.borrow_mut().get_flags();
        let x = t.borrow();
        if !Rc::ptr_eq(&x.get_parser(), &parser) {
          panic!("another parser");
        }
        for n in known {
          if x.has_attribute(n) != x.get_attribute(n).is_some() {
            panic!("has_attribute disagrees with get_attribute");
          }
        }
        for n in ["A", "B", "P"] {
          if x.has_child(n) != x.find_child(n).is_some() {
            panic!("has_child disagrees with find_child");
          }
        }
        obj(vec![
          ("n", st(x.get_name())),
          ("c", range(x.get_captured_range())),
          ("m", range(x.get_matched_range())),
          ("v", bytes(x.get_value())),
          ("ct", bytes(x.get_captured_value())),
          ("mt", bytes(x.get_matched_value())),
          (
            "at",
            arr(
              known
                .iter()
                .map(|n| at(x.get_attribute(n).cloned()))
                .collect(),
            ),
          ),
          ("ats", int(x.get_attributes().len())),
          (
            "eq",
            arr(
              known
                .iter()
                .flat_map(|n| ["x", "", "y"].map(|v| J::Bool(x.attribute_equals(n, v))))
                .collect(),
            ),
          ),
          (
            "has",
            arr(known.iter().map(|n| J::Bool(x.has_attribute(n))).collect()),
          ),
          ("f", int(f as usize)),
          (
            "on",
            arr(
              [1u8, 2, 4, 6]
                .iter()
                .map(|f| J::Bool(x.flags_enabled(*f)))
                .collect(),
            ),
          ),
          (
            "kids",
            arr(
              x.get_children()
                .iter()
                .map(|c| which(Some(c.clone())))
                .collect(),
            ),
          ),
          ("par", which(x.get_parent())),
          ("disc", J::Bool(x.should_discard())),
          (
            "find",
            arr(
              ["A", "B", "P", "XA", "a"]
                .iter()
                .map(|n| which(x.find_child(n)))
                .collect(),
            ),
          ),
          (
            "any",
            arr(
              ["A", "B", "P", "XA", "a"]
                .iter()
                .map(|n| J::Bool(x.has_child(n)))
                .collect(),
            ),
          ),
          (
            "fuzzy",
            arr(fuzzy.iter().map(|r| which(x.find_child_fuzzy(r))).collect()),
          ),
          (
            "same",
            arr(
              toks
                .iter()
                .map(|o| J::Bool(**x == **o.borrow()))
                .collect(),
            ),
          ),
        ])
      })
      .collect();
    seen.push(obj(vec![("r", r), ("t", arr(all))]));
  }
  for t in &toks {
    t.borrow_mut().set_children(vec![]);
    t.borrow_mut().set_parent(None);
  }
  arr(seen)
}

// -- C32

fn contexts(case: &J) -> J {
  let source = case.get("src").text();
  let parser = Parser::new(&source);
  let toks: Vec<TokenRef> = (0..3)
    .map(|_| StandardToken::new(&parser, "t".to_string(), SourceRange::new(0, 0)))
    .collect();
  let mut all: Vec<ParserContextRef> = vec![
    ParserContext::new(&parser, "0"),
    ParserContext::new_with_offset(&parser, SourceRange::new(0, 0), "0"),
  ];
  let texts = ["a", "ab", "é", "b", "", "aéa\n", "\n"];
  let regexes: Vec<regex::Regex> = ["[ab]+", "b", "a?", "é{1,2}$|^a$", "\\n|ab|a"]
    .iter()
    .map(|r| regex::Regex::new(r).unwrap())
    .collect();
  let at = |r: Option<SourceRange>| match r {
    Some(r) => range(&r),
    None => arr(vec![J::Int(-1), J::Int(-1)]),
  };
  let mut seen = vec![];
  for op in case.get("ops").a() {
    let c = op.get("c").u();
    let a = op.get("a").u();
    let b = op.get("b").u();
    if c <= all.len() {
      let x = all[c - 1].clone();
      match op.get("o").s() {
        "start" => x.borrow_mut().set_start(a),
        "end" => x.borrow_mut().set_end(a),
        "offset" => x.borrow_mut().set_offset(SourceRange::new(a, b)),
        "clone" => {
          if all.len() < 4 {
            all.push(x.borrow().clone_with_name(&a.to_string()))
          }
        }
        "push" => x.borrow_mut().push_token_to_stack(toks[a - 1].clone()),
        "pop" => x.borrow_mut().pop_token_from_stack(),
        "debug" => x.borrow_mut().set_debug_mode(a),
        "var" => {
          x.borrow_mut()
            .set_scope_variable("x", VariableType::String(a.to_string()));
        }
        o => panic!("harness: unknown operation {}", o),
      }
    }
    let sights: Vec<J> = all
      .iter()
      .map(|x| {
        let x = x.borrow();
        if *x.get_parser().borrow().get_source() != source {
          panic!("another source");
        }
        let (lo, hi) = (x.offset.start, x.offset.end);
        let readable = source.get(lo..hi).is_some();
        let none = || arr(vec![]);
        // All of the stack, from the top
        let mut tops = Vec::new();
        let mut y = x.clone();
        while let Some(t) = y.get_top_token_from_stack() {
          tops.push(int(toks.iter().position(|o| Rc::ptr_eq(o, &t)).unwrap_or(98) + 1));
          y.pop_token_from_stack();
          if tops.len() > 99 {
            break;
          }
        }
        y.pop_token_from_stack();
        obj(vec![
          ("w", range(&x.offset)),
          ("n", int(x.name.parse().unwrap())),
          ("top", arr(tops)),
          ("dbg", int(x.debug_mode_level())),
          ("on", J::Bool(x.is_debug_mode())),
          (
            "var",
            match x.get_scope_variable("x") {
              Some(VariableType::String(s)) => int(s.parse().unwrap()),
              _ => int(0),
            },
          ),
          (
            "str",
            if readable {
              arr(texts.iter().map(|t| at(x.matches_str(t))).collect())
            } else {
              none()
            },
          ),
          (
            "at",
            if readable {
              arr(
                (0..=source.len())
                  .filter(|p| source.is_char_boundary(*p))
                  .map(|p| {
                    arr(
                      texts
                        .iter()
                        .map(|t| at(x.matches_str_at_offset(t, p)))
                        .collect(),
                    )
                  })
                  .collect(),
              )
            } else {
              none()
            },
          ),
          (
            "re",
            if readable {
              arr(regexes.iter().map(|r| at(x.matches_regexp(r))).collect())
            } else {
              none()
            },
          ),
          (
            "show",
            if readable {
              arr((0..4).map(|n| bytes(&x.debug_range(n))).collect())
            } else {
              none()
            },
          ),
        ])
      })
      .collect();
    seen.push(arr(sights));
  }
  arr(seen)
}
