#[allow(unused_imports)]
use adextopa_core::{
  matcher::{MatcherFailure, MatcherRef, MatcherSuccess}, matchers, parse_error::ParseError, parser::Parser, parser_context::ParserContext,
  scope::{Scope, VariableType}, scope_context::ScopeContext, source_range::SourceRange, token::{StandardToken, TokenRef}, *,
};

/// name[captured|matched]"value"{children}
#[allow(dead_code)]
fn show(t: &TokenRef) -> String {
  let t = t.borrow();
  let c = t.get_captured_range();
  let m = t.get_matched_range();
  let kids: Vec<String> = t.get_children().iter().map(show).collect();
  format!("{}[{}-{}|{}-{}]{:?}{{{}}}", t.get_name(), c.start, c.end, m.start, m.end, t.get_value(), kids.join(" "))
}

#[allow(dead_code)]
fn outcome(r: std::thread::Result<Result<TokenRef, MatcherFailure>>) -> String {
  match r {
    Err(_) => "PANIC".to_string(),
    Ok(Ok(t)) => show(&t),
    Ok(Err(MatcherFailure::Fail)) => "FAIL".to_string(),
    Ok(Err(MatcherFailure::Error(e))) => format!("ERROR {}", e.message),
  }
}

#[allow(dead_code)]
fn parse(source: &str, matcher: MatcherRef) -> String {
  let parser = Parser::new(source);
  let context = ParserContext::new(&parser, "Demo");
  outcome(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ParserContext::tokenize(context, matcher))))
}

#[allow(dead_code)]
fn same(got: String, want: &str) {
  if got != want {
    eprintln!("got:  {}\nwant: {}", got, want);
    std::process::exit(1);
  }
}
