//! Scripts: compiled by the implementation, from a text or from files in a scratch directory, and
//! texts parsed with the result.

use crate::engine;
use crate::json::{int, obj, J};
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::script::current::parser::{compile_script_from_file, compile_script_from_str};
use std::path::PathBuf;

/// A directory with the files of a case ("files"), and one with other files of the same names ("other"),
/// which go away again. w says from where, and how, the first file is named: 0 from other, in full;
/// 1 from other; 2, 3 from files
struct Files {
  before: PathBuf,
  top: PathBuf,
  dir: PathBuf,
  way: usize,
}

/// What the other files are: nothing that the files of a case could mean
const OTHER: &str = "<!--[adextopa version='1' name='Other']A=<='other'>B=<='other'>C=<='other'>-->(<='other'>)";

impl Files {
  fn new(case: &J) -> Self {
    let before = std::env::current_dir().unwrap().canonicalize().unwrap();
    let top = before.join(format!("scripts-{}", std::process::id()));
    let (dir, other) = (top.join("files"), top.join("other"));
    let _ = std::fs::remove_dir_all(&top);
    for (place, own) in [(&dir, true), (&other, false)] {
      std::fs::create_dir_all(place).unwrap();
      for file in case.get("files").a() {
        let name = file.get("n").text();
        assert!(!name.starts_with('/') && !name.contains(".."), "harness: file outside of the scratch directory");
        let path = place.join(&name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(&path, if own { file.get("s").text() } else { OTHER.to_string() }).unwrap();
      }
    }
    let way = case.get("w").u();
    std::env::set_current_dir(if way < 2 { &other } else { &dir }).unwrap();
    Self { before, top, dir, way }
  }

  fn path(&self, name: &str) -> String {
    format!("{}{}", self.prefix(), name)
  }

  fn prefix(&self) -> String {
    match self.way {
      0 => format!("{}/", self.dir.to_str().unwrap()),
      1 => "../files/".to_string(),
      2 => String::new(),
      _ => "./".to_string(),
    }
  }
}

impl Drop for Files {
  fn drop(&mut self) {
    let _ = std::env::set_current_dir(&self.before);
    let _ = std::fs::remove_dir_all(&self.top);
  }
}

fn error(e: &ParseError) -> J {
  match &e.range {
    Some(r) => J::Arr(vec![int(r.start), int(r.end)]),
    None => J::Arr(vec![]),
  }
}

/// Names of tokens without the scratch directory
fn relative(x: &mut J, prefix: &str) {
  match x {
    J::Obj(m) => {
      for (k, v) in m.iter_mut() {
        match (k.as_str(), &v) {
          ("n", J::Str(s)) if s.starts_with(prefix) => *v = J::Str(s[prefix.len()..].to_string()),
          _ => relative(v, prefix),
        }
      }
    }
    J::Arr(a) => a.iter_mut().for_each(|v| relative(v, prefix)),
    _ => {}
  }
}

fn parse(matcher: &MatcherRef, text: &str) -> J {
  let parser = Parser::new(text);
  let context = ParserContext::new(&parser, "Test");
  let mut out = match engine::final_result(ParserContext::tokenize(context, matcher.clone())) {
    J::Obj(m) => m,
    _ => unreachable!(),
  };
  out.insert("vars".to_string(), J::Arr(vec![]));
  J::Obj(out)
}

pub fn run_case(case: &J) -> J {
  let inline = case.get("inline").b();
  let files;
  let prefix;
  // (to log errors, too, changes nothing else)
  let flags = (case.get("w").u() % 2) as u32;
  let first = &case.get("files").a()[0];
  let result = if inline {
    prefix = String::new();
    compile_script_from_str(&first.get("s").text(), "Root".to_string(), flags)
  } else {
    files = Files::new(case);
    prefix = files.prefix();
    compile_script_from_file(&files.path(&first.get("n").text()), flags)
  };
  let (ok, errs, mut outs) = match result {
    Ok(matcher) => (
      true,
      vec![],
      J::Arr(
        case
          .get("runs")
          .a()
          .iter()
          .map(|t| parse(&matcher, &t.text()))
          .collect(),
      ),
    ),
    Err(errors) => (false, errors.iter().map(error).collect(), J::Arr(vec![])),
  };
  if !inline {
    relative(&mut outs, &prefix);
  }
  obj(vec![("ok", J::Bool(ok)), ("errs", J::Arr(errs)), ("outs", outs)])
}
