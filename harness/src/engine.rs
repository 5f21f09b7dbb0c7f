//! Builds a matcher from a JSON grammar, runs it on the real engine, and reports everything that
//! is observable: enter / exit of every matcher (through transparent probes that only use the
//! public `Matcher` trait), calls of user hooks, the final result and token tree, and the scope.
use crate::json::{bytes, int, obj, st, J};
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::fetch::{FetchPattern, Fetchable, FetchableType};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct Log {
  pub events: Vec<J>,
  pub max_events: usize,
  pub source: String,
  /// the outcomes of the parses so far
  pub outs: Vec<J>,
}

pub type LogRef = Rc<RefCell<Log>>;

pub const BUDGET: &str = "harness: event budget exhausted";

pub fn sum(t: &str, n: Vec<J>, s: &str, m: J, p: Vec<J>) -> J {
  obj(vec![
    ("t", st(t)),
    ("n", J::Arr(n)),
    ("s", st(s)),
    ("m", m),
    ("p", J::Arr(p)),
  ])
}

fn no_bytes() -> J {
  J::Arr(vec![])
}

pub fn token_summary(kind: &str, token: &TokenRef) -> J {
  let t = token.borrow();
  let c = t.get_captured_range();
  let m = t.get_matched_range();
  sum(
    kind,
    vec![
      int(c.start),
      int(c.end),
      int(m.start),
      int(m.end),
      int(t.get_children().len()),
    ],
    t.get_name(),
    bytes(t.get_value()),
    vec![],
  )
}

pub fn success_summary(s: &MatcherSuccess) -> J {
  match s {
    MatcherSuccess::Token(t) => token_summary("tok", t),
    MatcherSuccess::ProxyChildren(t) => token_summary("prox", t),
    MatcherSuccess::Skip(n) => sum("skip", vec![J::Int(*n as i64)], "", no_bytes(), vec![]),
    MatcherSuccess::Break((n, p)) => sum("brk", vec![], n, no_bytes(), vec![success_summary(p)]),
    MatcherSuccess::Continue((n, p)) => {
      sum("cont", vec![], n, no_bytes(), vec![success_summary(p)])
    }
    MatcherSuccess::None => sum("none", vec![], "", no_bytes(), vec![]),
    MatcherSuccess::Stop => sum("stop", vec![], "", no_bytes(), vec![]),
  }
}

pub fn error_summary(e: &ParseError) -> J {
  let n = match &e.range {
    Some(r) => vec![int(r.start), int(r.end)],
    None => vec![J::Int(-1), J::Int(-1)],
  };
  sum("err", n, "", bytes(&e.message), vec![])
}

pub fn failure_summary(f: &MatcherFailure) -> J {
  match f {
    MatcherFailure::Fail => sum("fail", vec![], "", no_bytes(), vec![]),
    MatcherFailure::Error(e) => error_summary(e),
  }
}

pub fn result_summary(r: &Result<MatcherSuccess, MatcherFailure>) -> J {
  match r {
    Ok(s) => success_summary(s),
    Err(f) => failure_summary(f),
  }
}

fn event(e: &str, id: usize, a: usize, b: usize, r: J) -> J {
  obj(vec![
    ("e", st(e)),
    ("i", int(id)),
    ("a", int(a)),
    ("b", int(b)),
    ("r", r),
  ])
}

fn push_event(log: &LogRef, ev: J) {
  let mut log = log.borrow_mut();
  if log.events.len() >= log.max_events {
    drop(log);
    std::panic::panic_any(BUDGET.to_string());
  }
  log.events.push(ev);
}

/// Wraps a matcher: forwards everything, and logs each call and result.
struct Probe {
  inner: MatcherRef,
  id: usize,
  name: String,
  log: LogRef,
}

impl Matcher for Probe {
  fn exec(
    &self,
    this_matcher: MatcherRef,
    context: ParserContextRef,
    scope: ScopeContextRef,
  ) -> Result<MatcherSuccess, MatcherFailure> {
    let offset = context.borrow().offset;
    push_event(
      &self.log,
      event(
        "in",
        self.id,
        offset.start,
        offset.end,
        sum("", vec![], "", no_bytes(), vec![]),
      ),
    );
    let result = self.inner.borrow().exec(this_matcher, context, scope);
    push_event(
      &self.log,
      event("out", self.id, 0, 0, result_summary(&result)),
    );
    result
  }

  fn get_name(&self) -> &str {
    self.name.as_str()
  }

  fn set_name(&mut self, name: &str) {
    self.inner.borrow_mut().set_name(name);
    self.name = self.inner.borrow().get_name().to_string();
  }

  fn add_pattern(&mut self, pattern: MatcherRef) {
    self.inner.borrow_mut().add_pattern(pattern);
  }

  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    self.inner.borrow().get_children()
  }

  fn set_child(&mut self, index: usize, matcher: MatcherRef) {
    self.inner.borrow_mut().set_child(index, matcher);
  }

  fn to_string(&self) -> String {
    format!("Probe({})", self.id)
  }

  fn has_custom_name(&self) -> bool {
    self.inner.borrow().has_custom_name()
  }

  fn is_consuming(&self) -> bool {
    self.inner.borrow().is_consuming()
  }
}

/// A user defined leaf matcher, returning a fixed result (or failing, when the text it would match
/// is not there).
struct Emit {
  res: J,
  consuming: bool,
  log: LogRef,
}

fn emit_payload(context: &ParserContextRef, p: &J) -> MatcherSuccess {
  match p {
    J::Null => MatcherSuccess::None,
    p => match p.get("t").s() {
      "skip" => MatcherSuccess::Skip(p.get("n").i() as isize),
      "tok" | "prox" => {
        let (parser, start) = {
          let c = context.borrow();
          (c.get_parser(), c.offset.start)
        };
        let range = SourceRange::new(start, start + p.get("n").u());
        let token = StandardToken::new(&parser, p.get("s").s().to_string(), range);
        if p.get("t").s() == "prox" {
          let parent = StandardToken::new(&parser, "Emitted".to_string(), range);
          token.borrow_mut().set_parent(Some(parent.clone()));
          parent.borrow_mut().add_child(token);
          MatcherSuccess::ProxyChildren(parent)
        } else {
          MatcherSuccess::Token(token)
        }
      }
      "none" => MatcherSuccess::None,
      "stop" => MatcherSuccess::Stop,
      t => panic!("harness: bad emit {}", t),
    },
  }
}

impl Matcher for Emit {
  fn exec(
    &self,
    this_matcher: MatcherRef,
    context: ParserContextRef,
    scope: ScopeContextRef,
  ) -> Result<MatcherSuccess, MatcherFailure> {
    self.before_exec(this_matcher.clone(), context.clone(), scope.clone());
    let res = &self.res;
    let payload = match res.get("t").s() {
      "brk" | "cont" => res.get("p"),
      _ => res,
    };
    let fits = {
      let context = context.borrow();
      let end = context.offset.start as i64 + payload.get("n").i();
      end >= 0
        && end as usize <= context.offset.end
        && self.log.borrow().source.is_char_boundary(end as usize)
    };
    let result = match res.get("t").s() {
      _ if !fits => Err(MatcherFailure::Fail),
      "brk" => Ok(MatcherSuccess::Break((
        res.get("s").s().to_string(),
        Box::new(emit_payload(&context, res.get("p"))),
      ))),
      "cont" => Ok(MatcherSuccess::Continue((
        res.get("s").s().to_string(),
        Box::new(emit_payload(&context, res.get("p"))),
      ))),
      "fail" => Err(MatcherFailure::Fail),
      _ => Ok(emit_payload(&context, res)),
    };
    self.after_exec(this_matcher.clone(), context.clone(), scope.clone());
    result
  }

  fn get_name(&self) -> &str {
    "Emit"
  }

  fn set_name(&mut self, _: &str) {}

  fn add_pattern(&mut self, _: MatcherRef) {}

  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    None
  }

  fn to_string(&self) -> String {
    "Emit".to_string()
  }

  fn is_consuming(&self) -> bool {
    self.consuming
  }
}

#[derive(Debug)]
enum Pat {
  S(String),
  F(FetchPattern),
  M(MatcherRef),
}

impl Fetchable for Pat {
  fn fetch_value(&self, context: ParserContextRef, scope: ScopeContextRef) -> FetchableType {
    match self {
      Pat::S(v) => v.fetch_value(context, scope),
      Pat::F(v) => v.fetch_value(context, scope),
      Pat::M(v) => v.fetch_value(context, scope),
    }
  }
}

fn fetch_path(p: &J) -> String {
  if p.get("s").s() == "" {
    p.get("v").s().to_string()
  } else {
    format!("{}.{}", p.get("v").s(), p.get("s").s())
  }
}

/// Names that are written as literals in macros
const LITERALS: [&str; 9] = ["A", "B", "C", "L", "M", "N", "P", "X", "Loop"];

macro_rules! with_kids {
  ($name:literal, $kids:ident, $m:ident) => {
    match $kids.len() {
      1 => $m!($name; $kids[0].clone()),
      2 => $m!($name; $kids[0].clone(), $kids[1].clone()),
      _ => $m!($name; $kids[0].clone(), $kids[1].clone(), $kids[2].clone()),
    }
  };
  ($name:literal, $kids:ident, $m:ident, $range:ident) => {
    match $kids.len() {
      1 => $m!($range; $name; $kids[0].clone()),
      2 => $m!($range; $name; $kids[0].clone(), $kids[1].clone()),
      _ => $m!($range; $name; $kids[0].clone(), $kids[1].clone(), $kids[2].clone()),
    }
  };
}

macro_rules! by_literal {
  ($name:ident, $kids:ident, $m:ident $(, $r:ident)?) => {
    match $name.as_str() {
      "A" => with_kids!("A", $kids, $m $(, $r)?),
      "B" => with_kids!("B", $kids, $m $(, $r)?),
      "C" => with_kids!("C", $kids, $m $(, $r)?),
      "L" => with_kids!("L", $kids, $m $(, $r)?),
      "M" => with_kids!("M", $kids, $m $(, $r)?),
      "N" => with_kids!("N", $kids, $m $(, $r)?),
      "P" => with_kids!("P", $kids, $m $(, $r)?),
      "X" => with_kids!("X", $kids, $m $(, $r)?),
      "Loop" => with_kids!("Loop", $kids, $m $(, $r)?),
      _ => unreachable!(),
    }
  };
}

pub struct Built {
  pub nodes: Vec<Option<MatcherRef>>, // what other nodes refer to (probes, if probing)
  pub raw: Vec<Option<MatcherRef>>,
}

pub struct Builder<'a> {
  pub g: &'a Vec<J>,
  pub probe: bool,
  pub log: LogRef,
  pub scopes: Vec<ScopeContextRef>,
  pub built: Built,
}

impl<'a> Builder<'a> {
  pub fn new(g: &'a Vec<J>, probe: bool, log: LogRef, scopes: Vec<ScopeContextRef>) -> Self {
    let n = g.len();
    Builder {
      g,
      probe,
      log,
      scopes,
      built: Built {
        nodes: vec![None; n + 1],
        raw: vec![None; n + 1],
      },
    }
  }

  pub fn node(&mut self, id: usize) -> MatcherRef {
    if let Some(m) = &self.built.nodes[id] {
      return m.clone();
    }
    let node = &self.g[id - 1];
    let raw = self.make(id, node);
    self.built.raw[id] = Some(raw.clone());
    let m = if self.probe {
      let name = raw.borrow().get_name().to_string();
      let p: MatcherRef = Rc::new(RefCell::new(Box::new(Probe {
        inner: raw,
        id,
        name,
        log: self.log.clone(),
      })));
      p
    } else {
      raw
    };
    self.built.nodes[id] = Some(m.clone());
    m
  }

  fn pat(&mut self, p: &J) -> Pat {
    match p.get("t").s() {
      "s" => Pat::S(p.get("v").text()),
      "f" => Pat::F(FetchPattern::new(&fetch_path(p))),
      "m" => Pat::M(self.node(p.get("v").u())),
      t => panic!("harness: bad pattern type {}", t),
    }
  }

  fn kids(&mut self, node: &J) -> Vec<MatcherRef> {
    node
      .get("ch")
      .a()
      .iter()
      .map(|c| self.node(c.u()))
      .collect()
  }

  fn make(&mut self, id: usize, node: &J) -> MatcherRef {
    use adextopa_core::matchers::equals::EqualsPattern;
    use adextopa_core::matchers::matches::MatchesPattern;
    use adextopa_core::matchers::pin::PinPattern;
    use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
    use adextopa_core::matchers::r#ref::RefPattern;
    use adextopa_core::matchers::sequence::SequencePattern;
    use adextopa_core::matchers::store::StorePattern;

    let k = node.get("k").s();
    let name = match node.get("n") {
      J::Str(v) => v.clone(),
      _ => "".to_string(),
    };
    let cu = node.get("cu").b();
    let via = match node.get("via") {
      J::Int(v) => *v,
      _ => 0,
    };

    match k {
      "Equals" => {
        let p = self.pat(node.get("pat"));
        match (p, cu) {
          (Pat::S(v), false) => {
            if via == 1 {
              let leaked: &'static str = Box::leak(v.into_boxed_str());
              Equals!(leaked)
            } else {
              EqualsPattern::new(v)
            }
          }
          (Pat::S(v), true) => {
            if via == 1 {
              Equals!(&name; v)
            } else {
              EqualsPattern::new_with_name(&name, v)
            }
          }
          (p, false) => EqualsPattern::new(p),
          (p, true) => EqualsPattern::new_with_name(&name, p),
        }
      }
      "Matches" => {
        let re = node.get("re").text();
        if cu {
          if via == 1 {
            Matches!(&name; &re)
          } else {
            MatchesPattern::new_with_name(&name, regex::Regex::new(&re).unwrap())
          }
        } else if via == 1 {
          Matches!(&re)
        } else {
          MatchesPattern::new(regex::Regex::new(&re).unwrap())
        }
      }
      "Sequence" => {
        let a = self.pat(node.get("st"));
        let b = self.pat(node.get("en"));
        let c = self.pat(node.get("es"));
        match (a, b, c) {
          (Pat::S(a), Pat::S(b), Pat::S(c)) => {
            if cu {
              Sequence!(&name; a, b, c)
            } else {
              Sequence!(a, b, c)
            }
          }
          (a, b, c) => {
            if cu {
              SequencePattern::new_with_name(&name, a, b, c)
            } else {
              SequencePattern::new(a, b, c)
            }
          }
        }
      }
      "Program" | "Switch" => {
        let kids = self.kids(node);
        let program = k == "Program";
        let action = || {
          if program {
            MatchAction::Continue
          } else {
            MatchAction::Stop
          }
        };
        if cu {
          if via == 1 && kids.len() <= 3 && kids.len() > 0 && LITERALS.contains(&name.as_str()) {
            if program {
              by_literal!(name, kids, Program)
            } else {
              by_literal!(name, kids, Switch)
            }
          } else if via == 1 {
            let m = if program { Program!() } else { Switch!() };
            m.borrow_mut().set_name(&name);
            for kid in kids {
              m.borrow_mut().add_pattern(kid);
            }
            m
          } else {
            ProgramPattern::new_program_with_name(kids, name, action())
          }
        } else if via == 1 {
          match (program, kids.len()) {
            (true, 1) => Program!(kids[0].clone()),
            (true, 2) => Program!(kids[0].clone(), kids[1].clone()),
            (true, 3) => Program!(kids[0].clone(), kids[1].clone(), kids[2].clone()),
            (false, 1) => Switch!(kids[0].clone()),
            (false, 2) => Switch!(kids[0].clone(), kids[1].clone()),
            (false, 3) => Switch!(kids[0].clone(), kids[1].clone(), kids[2].clone()),
            _ => {
              let m = ProgramPattern::new_blank_program(action());
              for kid in kids {
                m.borrow_mut().add_pattern(kid);
              }
              m
            }
          }
        } else {
          ProgramPattern::new_program(kids, action())
        }
      }
      "Loop" => {
        let kids = self.kids(node);
        let min = node.get("min").u();
        let max = node.get("max").i();
        if cu && via == 0 {
          return if max < 0 {
            ProgramPattern::new_loop_with_name_and_range(kids, name, min..)
          } else {
            ProgramPattern::new_loop_with_name_and_range(kids, name, min..(max as usize))
          };
        }
        if cu && via == 1 && kids.len() <= 3 && kids.len() > 0 && LITERALS.contains(&name.as_str()) {
          return if max >= 0 && min == 0 {
            let range = ..(max as usize);
            by_literal!(name, kids, Loop, range)
          } else if max >= 0 {
            let range = min..(max as usize);
            by_literal!(name, kids, Loop, range)
          } else if min == 0 {
            by_literal!(name, kids, Loop)
          } else {
            let range = min..;
            by_literal!(name, kids, Loop, range)
          };
        }
        let m = if via == 1 {
          if max < 0 {
            match (min, kids.len()) {
              (0, 1) => Loop!(kids[0].clone()),
              (0, 2) => Loop!(kids[0].clone(), kids[1].clone()),
              (_, 1) => Loop!(min..; kids[0].clone()),
              (_, 2) => Loop!(min..; kids[0].clone(), kids[1].clone()),
              _ => {
                let m = if min == 0 {
                  Loop!()
                } else {
                  ProgramPattern::new_blank_loop(min..)
                };
                for kid in kids {
                  m.borrow_mut().add_pattern(kid);
                }
                m
              }
            }
          } else {
            match kids.len() {
              1 => Loop!(min..(max as usize); kids[0].clone()),
              2 => Loop!(min..(max as usize); kids[0].clone(), kids[1].clone()),
              _ => {
                let m = ProgramPattern::new_blank_loop(min..(max as usize));
                for kid in kids {
                  m.borrow_mut().add_pattern(kid);
                }
                m
              }
            }
          }
        } else if max < 0 {
          ProgramPattern::new_loop(kids, min..)
        } else {
          ProgramPattern::new_loop(kids, min..(max as usize))
        };
        if cu {
          m.borrow_mut().set_name(&name);
        }
        m
      }
      "Not" => Not!(self.kids(node)[0].clone()),
      "Optional" => Optional!(self.kids(node)[0].clone()),
      "Null" => Null!(),
      "Fetch" => Rc::new(RefCell::new(Box::new(FetchPattern::new(&name)))),
      "Discard" => Discard!(self.kids(node)[0].clone()),
      "Flatten" => {
        let kid = self.kids(node)[0].clone();
        if cu && via == 1 && name == "A" {
          ProxyChildren!("A"; kid)
        } else if cu && via == 1 && name == "L" {
          ProxyChildren!("L"; kid)
        } else if cu {
          adextopa_core::matchers::proxy_children::ProxyChildrenPattern::new_with_name(kid, &name)
        } else {
          ProxyChildren!(kid)
        }
      }
      "ExpandRange" => ExpandRange!(self.kids(node)[0].clone()),
      "Pin" => {
        let off = self.pat(node.get("off"));
        let kid = self.kids(node).get(0).cloned();
        match (off, cu) {
          (Pat::S(v), false) => {
            if v == "" && via == 1 {
              match kid {
                Some(kid) => Pin!(kid),
                None => Pin!(),
              }
            } else {
              PinPattern::new(kid, v)
            }
          }
          (Pat::S(v), true) => match kid {
            Some(kid) if v == "" && via == 1 => Pin!(&name; kid),
            None if v == "" && via == 1 => Pin!(&name;),
            Some(kid) => Pin!(&name, v; kid),
            None => Pin!(&name, v;),
          },
          (p, false) => PinPattern::new(kid, p),
          (p, true) => PinPattern::new_with_name(kid, &name, p),
        }
      }
      "Store" => {
        let kid = self.kids(node)[0].clone();
        if via == 1 {
          Store!(&name; kid)
        } else {
          StorePattern::new_as_matcher_type(&name, kid)
        }
      }
      "StoreS" if via == 1 && name == "v" && node.get("v").text() == "a" => Store!("v"; "a"),
      "StoreS" => StorePattern::new_as_string_type(&name, &node.get("v").text()),
      "Ref" => {
        let t = node.get("tgt");
        match (t.get("t").s(), cu) {
          ("n", false) => Ref!(t.get("v").s().to_string()),
          ("n", true) => Ref!(name; t.get("v").s().to_string()),
          (_, false) => RefPattern::new(self.pat(t)),
          (_, true) => RefPattern::new_with_name(self.pat(t), name),
        }
      }
      "Register" => {
        let kids = self.kids(node);
        match kids.len() {
          1 => Register!(kids[0].clone()),
          2 => Register!(kids[0].clone(), kids[1].clone()),
          _ => {
            let m = adextopa_core::matchers::register::RegisterPattern::new_blank();
            for kid in kids {
              m.borrow_mut().add_pattern(kid);
            }
            m
          }
        }
      }
      "SetScope" => {
        let kid = self.kids(node)[0].clone();
        let sx = node.get("sx").u();
        if sx == 0 {
          SetScope!(kid)
        } else {
          SetScope!(self.scopes[sx - 1].clone(), kid)
        }
      }
      "Panic" => Panic!(&node.get("msg").text()),
      "Error" => Error!(&node.get("msg").text()),
      "Break" => {
        let ln = node.get("ln").s();
        if ln == "" && via == 1 {
          Break!()
        } else {
          Break!(ln)
        }
      }
      "AssertIf" => {
        let kid = self.kids(node)[0].clone();
        let msg: &'static str = Box::leak(node.get("msg").text().into_boxed_str());
        AssertIf!(kid, msg)
      }
      "AssertIfNot" => {
        let kid = self.kids(node)[0].clone();
        let msg: &'static str = Box::leak(node.get("msg").text().into_boxed_str());
        AssertIfNot!(kid, msg)
      }
      "FatalIf" => {
        let kid = self.kids(node)[0].clone();
        let msg: &'static str = Box::leak(node.get("msg").text().into_boxed_str());
        FatalIf!(kid, msg)
      }
      "FatalIfNot" => {
        let kid = self.kids(node)[0].clone();
        let msg: &'static str = Box::leak(node.get("msg").text().into_boxed_str());
        FatalIfNot!(kid, msg)
      }
      "Map" => {
        let kid = self.kids(node)[0].clone();
        let sf = node.get("sf").s().to_string();
        let ss = node.get("ss").s().to_string();
        let sv = node.get("sv").text();
        let ff = node.get("ff").s().to_string();
        let fm = node.get("fm").text();
        let log = self.log.clone();
        let log2 = self.log.clone();
        let name = ss.clone();
        let succeed = move |token: TokenRef, context: ParserContextRef, scope: ScopeContextRef| {
          push_event(
            &log,
            event("hook", id, 0, window(&context), token_summary("tok", &token)),
          );
          map_success(&sf, &ss, &sv, token, context, scope)
        };
        if ff == "none" {
          Map!(kid, succeed)
        } else {
          Map!(
            kid,
            succeed,
            move |failure: MatcherFailure, context: ParserContextRef, scope: ScopeContextRef| {
              push_event(
                &log2,
                event("hook", id, 1, window(&context), failure_summary(&failure)),
              );
              if ff == "note" {
                scope.borrow_mut().set(&name, VariableType::String(fm.clone()));
              }
              map_failure(&ff, &fm, failure, context)
            }
          )
        }
      }
      "Catch" => {
        let kid = self.kids(node)[0].clone();
        let ff = node.get("ff").s().to_string();
        let fm = node.get("fm").text();
        let log = self.log.clone();
        Catch!(
          kid,
          move |context: ParserContextRef, failure: MatcherFailure| {
            push_event(
              &log,
              event("hook", id, 1, window(&context), failure_summary(&failure)),
            );
            map_failure(&ff, &fm, failure, context)
          }
        )
      }
      "Debug" => {
        let kid = self.kids(node).get(0).cloned();
        match (node.get("mode").i(), kid) {
          (1, Some(kid)) => Debug!(kid),
          (1, None) => Debug!(),
          (0, Some(kid)) if via == 1 => Debug!(0; kid),
          (2, Some(kid)) if via == 1 => Debug!(2; kid),
          (0, None) if via == 1 => Debug!(0;),
          (2, None) if via == 1 => Debug!(2;),
          (mode, kid) => {
            adextopa_core::matchers::debug::DebugPattern::new_with_debug_mode(kid, mode as usize)
          }
        }
      }
      "Emit" => Rc::new(RefCell::new(Box::new(Emit {
        res: node.get("res").clone(),
        consuming: node.get("cns").b(),
        log: self.log.clone(),
      }))),
      k => panic!("harness: unknown matcher {}", k),
    }
  }
}

/// The window of a context, as one number
fn window(context: &ParserContextRef) -> usize {
  let offset = context.borrow().offset;
  offset.start.wrapping_mul(10000).wrapping_add(offset.end)
}

fn map_success(
  sf: &str,
  ss: &str,
  sv: &str,
  token: TokenRef,
  context: ParserContextRef,
  scope: ScopeContextRef,
) -> Result<MatcherSuccess, MatcherFailure> {
  match sf {
    "tok" => Ok(MatcherSuccess::Token(token)),
    "prox" => Ok(MatcherSuccess::ProxyChildren(token)),
    "skip" => {
      let n = token.borrow().get_matched_range().end as isize
        - context.borrow().offset.start as isize;
      Ok(MatcherSuccess::Skip(n))
    }
    "skip0" => Ok(MatcherSuccess::Skip(0)),
    "warn" => {
      let range = *token.borrow().get_matched_range();
      ErrorTokenResult!(context, sv, &range)
    }
    "own" => {
      let range = *token.borrow().get_captured_range();
      let parser = context.borrow().parser.clone();
      let own = StandardToken::new(&parser, ss.to_string(), range);
      TokenResult!(own)
    }
    "name" => {
      token.borrow_mut().set_name(ss);
      Ok(MatcherSuccess::Token(token))
    }
    "attr" => {
      token.borrow_mut().set_attribute(ss, sv);
      Ok(MatcherSuccess::Token(token))
    }
    "val" => {
      token.borrow_mut().set_value(sv);
      Ok(MatcherSuccess::Token(token))
    }
    "put" => {
      scope
        .borrow_mut()
        .set(ss, VariableType::Token(token.clone()));
      Ok(MatcherSuccess::Token(token))
    }
    "see" => {
      let seen = match scope.borrow().get(ss) {
        Some(VariableType::Token(t)) => t.borrow().get_value().clone(),
        Some(VariableType::String(s)) => s,
        Some(VariableType::Matcher(_)) => "m".to_string(),
        None => "-".to_string(),
      };
      token.borrow_mut().set_value(&seen);
      Ok(MatcherSuccess::Token(token))
    }
    "brk" => Ok(MatcherSuccess::Break((
      ss.to_string(),
      Box::new(MatcherSuccess::Token(token)),
    ))),
    "cont" => Ok(MatcherSuccess::Continue((
      ss.to_string(),
      Box::new(MatcherSuccess::Token(token)),
    ))),
    "fail" => Err(MatcherFailure::Fail),
    "err" => Err(MatcherFailure::Error(ParseError::new(sv))),
    f => panic!("harness: bad success function {}", f),
  }
}

fn map_failure(
  ff: &str,
  fm: &str,
  failure: MatcherFailure,
  context: ParserContextRef,
) -> Result<MatcherSuccess, MatcherFailure> {
  match ff {
    "pass" | "note" => Err(failure),
    "skip0" => Ok(MatcherSuccess::Skip(0)),
    "fail" => Err(MatcherFailure::Fail),
    "err" => Err(MatcherFailure::Error(ParseError::new(fm))),
    "errtok" => ErrorTokenResult!(context.clone(), fm),
    "errat" => {
      let range = context.borrow().offset;
      ErrorTokenResult!(context.clone(), fm, &range)
    }
    "only" => match failure {
      MatcherFailure::Fail => Ok(MatcherSuccess::Skip(0)),
      e => Err(e),
    },
    f => panic!("harness: bad failure function {}", f),
  }
}

/// The token tree in pre-order. The parent is reported as the (pre-order) number of the token,
/// 0 for none, and -1 for a token that is not part of the tree.
pub fn tree(root: &TokenRef) -> J {
  let mut list: Vec<TokenRef> = Vec::new();
  fn walk(t: &TokenRef, list: &mut Vec<TokenRef>, depth: usize) {
    list.push(t.clone());
    if depth > 5000 || list.len() > 100000 {
      std::panic::panic_any("harness: token tree does not end".to_string());
    }
    for c in t.borrow().get_children() {
      walk(c, list, depth + 1);
    }
  }
  walk(root, &mut list, 0);
  let mut out = Vec::new();
  for t in &list {
    let parent = t.borrow().get_parent();
    let parent = match parent {
      None => 0,
      Some(p) => match list.iter().position(|o| Rc::ptr_eq(o, &p)) {
        Some(i) => i as i64 + 1,
        None => -1,
      },
    };
    let flags = t.borrow_mut().get_flags();
    let t = t.borrow();
    let c = t.get_captured_range();
    let m = t.get_matched_range();
    let mut attrs: Vec<(&String, &String)> = t.get_attributes().iter().collect();
    attrs.sort();
    out.push(obj(vec![
      ("n", st(t.get_name())),
      (
        "r",
        J::Arr(vec![
          int(c.start),
          int(c.end),
          int(m.start),
          int(m.end),
          int(t.get_children().len()),
          J::Int(parent),
          int(flags as usize),
        ]),
      ),
      ("v", bytes(t.get_value())),
      ("c", bytes(t.get_captured_value())),
      ("m", bytes(t.get_matched_value())),
      (
        "a",
        J::Arr(
          attrs
            .iter()
            .map(|(k, v)| J::Arr(vec![st(k), bytes(v)]))
            .collect(),
        ),
      ),
    ]));
  }
  J::Arr(out)
}

pub fn final_result(r: Result<TokenRef, MatcherFailure>) -> J {
  match r {
    Ok(t) => obj(vec![
      ("t", st("ok")),
      ("n", J::Arr(vec![])),
      ("m", no_bytes()),
      ("tree", tree(&t)),
    ]),
    Err(MatcherFailure::Fail) => simple_result("fail"),
    Err(MatcherFailure::Error(e)) => obj(vec![
      ("t", st("err")),
      (
        "n",
        match &e.range {
          Some(r) => J::Arr(vec![int(r.start), int(r.end)]),
          None => J::Arr(vec![J::Int(-1), J::Int(-1)]),
        },
      ),
      ("m", bytes(&e.message)),
      ("tree", J::Arr(vec![])),
    ]),
  }
}

pub fn simple_result(t: &str) -> J {
  obj(vec![
    ("t", st(t)),
    ("n", J::Arr(vec![])),
    ("m", no_bytes()),
    ("tree", J::Arr(vec![])),
  ])
}

fn variable(v: Option<VariableType>, built: &Built) -> J {
  match v {
    None => sum("none", vec![], "", no_bytes(), vec![]),
    Some(VariableType::String(v)) => sum("str", vec![], "", bytes(&v), vec![]),
    Some(VariableType::Token(t)) => token_summary("tok", &t),
    Some(VariableType::Matcher(m)) => {
      let id = built
        .nodes
        .iter()
        .position(|n| n.as_ref().map_or(false, |n| Rc::ptr_eq(n, &m)))
        .unwrap_or(0);
      sum("mat", vec![int(id)], "", no_bytes(), vec![])
    }
  }
}

fn bind(scope: &ScopeContextRef, b: &J, builder: &mut Builder) {
  let name = b.get("n").s();
  let value = match b.get("t").s() {
    "str" => VariableType::String(b.get("v").text()),
    "mat" => VariableType::Matcher(builder.node(b.get("i").u())),
    t => panic!("harness: bad binding {}", t),
  };
  scope.borrow_mut().set(name, value);
}

/// Runs a case: a list of parses with the same matcher. `keep` keeps the context's scope of the
/// previous parse (by way of the same parser context), otherwise each parse has a new context.
pub fn run_case(case: &J, log: LogRef) -> J {
  let g = case.get("g").a();
  let scopes: Vec<ScopeContextRef> = case
    .get("scopes")
    .a()
    .iter()
    .map(|_| ScopeContext::new())
    .collect();
  let mut builder = Builder::new(g, case.get("probe").b(), log, scopes.clone());
  let log = builder.log.clone();
  let root = builder.node(case.get("root").u());

  for (i, bindings) in case.get("scopes").a().iter().enumerate() {
    for level in bindings.a() {
      scopes[i].borrow_mut().push(Scope::new());
      for b in level.a() {
        bind(&scopes[i], b, &mut builder);
      }
    }
  }

  let mut previous: Option<ParserContextRef> = None;
  for run in case.get("runs").a() {
    for op in run.get("ops").a() {
      edit(op, &mut builder);
    }
    let src = run.get("src").text();
    log.borrow_mut().source = src.clone();
    let keep = run.get("keep").b();
    let context = match (&previous, keep) {
      (Some(context), true) => context.clone(),
      _ => {
        let parser = if case.get("file").text() != "" {
          Parser::new_with_file_name(&src, &case.get("file").text())
        } else {
          Parser::new(&src)
        };
        let context = if !run.get("full").b() {
          ParserContext::new_with_offset(
            &parser,
            SourceRange::new(run.get("lo").u(), run.get("hi").u()),
            "Test",
          )
        } else {
          ParserContext::new(&parser, "Test")
        };
        for b in case.get("main").a() {
          if b.get("t").s() == "mat" && b.get("reg").b() {
            let m = builder.node(b.get("i").u());
            context.borrow().register_matcher(m);
          } else {
            let scope = context.borrow().get_scope();
            bind(&scope, b, &mut builder);
          }
        }
        context
      }
    };
    previous = Some(context.clone());

    let result = ParserContext::tokenize(context.clone(), root.clone());
    let mut out = match final_result(result) {
      J::Obj(m) => m,
      _ => unreachable!(),
    };
    let mut vars = Vec::new();
    for name in case.get("watch").a() {
      let value = context.borrow().get_scope_variable(name.s());
      vars.push(variable(value, &builder.built));
    }
    out.insert("vars".to_string(), J::Arr(vars));
    if !builder.probe && (log.borrow().outs.is_empty() || !run.get("ops").a().is_empty()) {
      out.insert("sh".to_string(), shape(&builder.built));
    }
    log.borrow_mut().outs.push(J::Obj(out));
  }

  obj(vec![])
}

/// What the matchers say about themselves: names, whether these are their own, children
fn shape(built: &Built) -> J {
  let mut all = Vec::new();
  for m in built.raw.iter().skip(1) {
    all.push(match m {
      None => J::Null,
      Some(m) => {
        let m = m.borrow();
        let children = m.get_children().unwrap_or(Vec::new());
        let ids = children
          .iter()
          .map(|c| {
            let id = built.raw.iter().position(|x| match x {
              Some(x) => Rc::ptr_eq(x, c),
              None => false,
            });
            J::Int(id.unwrap_or(0) as i64)
          })
          .collect();
        obj(vec![
          ("n", J::Str(m.get_name().to_string())),
          ("cu", J::Bool(m.has_custom_name())),
          ("ch", J::Arr(ids)),
        ])
      }
    });
  }
  J::Arr(all)
}

/// An edit of the matcher tree
fn edit(op: &J, builder: &mut Builder) {
  let m = builder.node(op.get("i").u());
  match op.get("op").s() {
    "name" => m.borrow_mut().set_name(op.get("s").s()),
    "child" => {
      let child = builder.node(op.get("j").u());
      m.borrow_mut().set_child(op.get("x").u(), child);
    }
    "add" => {
      let child = builder.node(op.get("j").u());
      m.borrow_mut().add_pattern(child);
    }
    o => panic!("harness: unknown edit {}", o),
  }
}
