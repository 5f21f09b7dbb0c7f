//! A minimal JSON value, parser and writer (keeps the harness free of dependencies).
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  Int(i64),
  Str(String),
  Arr(Vec<J>),
  Obj(BTreeMap<String, J>),
}

impl J {
  pub fn get(&self, key: &str) -> &J {
    match self {
      J::Obj(m) => m.get(key).unwrap_or(&J::Null),
      _ => &J::Null,
    }
  }

  pub fn has(&self, key: &str) -> bool {
    *self.get(key) != J::Null
  }

  pub fn i(&self) -> i64 {
    match self {
      J::Int(v) => *v,
      _ => panic!("harness: expected an integer, got {:?}", self),
    }
  }

  pub fn u(&self) -> usize {
    self.i() as usize
  }

  pub fn b(&self) -> bool {
    match self {
      J::Bool(v) => *v,
      _ => false,
    }
  }

  pub fn s(&self) -> &str {
    match self {
      J::Str(v) => v,
      _ => panic!("harness: expected a string, got {:?}", self),
    }
  }

  pub fn a(&self) -> &Vec<J> {
    static EMPTY: Vec<J> = Vec::new();
    match self {
      J::Arr(v) => v,
      J::Null => &EMPTY,
      _ => panic!("harness: expected an array, got {:?}", self),
    }
  }

  /// A byte sequence, as text
  pub fn text(&self) -> String {
    match self {
      J::Str(v) => v.clone(),
      _ => String::from_utf8(self.a().iter().map(|v| v.i() as u8).collect())
        .expect("harness: not UTF-8"),
    }
  }
}

pub fn bytes(text: &str) -> J {
  J::Arr(text.bytes().map(|b| J::Int(b as i64)).collect())
}

pub fn int(v: usize) -> J {
  if v >= 2147483647 {
    J::Int(2147483647)
  } else {
    J::Int(v as i64)
  }
}

pub fn st(v: &str) -> J {
  J::Str(v.to_string())
}

pub fn obj(fields: Vec<(&str, J)>) -> J {
  J::Obj(
    fields
      .into_iter()
      .map(|(k, v)| (k.to_string(), v))
      .collect(),
  )
}

pub fn write(j: &J, out: &mut String) {
  match j {
    J::Null => out.push_str("null"),
    J::Bool(v) => out.push_str(if *v { "true" } else { "false" }),
    J::Int(v) => out.push_str(&v.to_string()),
    J::Str(v) => write_str(v, out),
    J::Arr(v) => {
      out.push('[');
      for (i, item) in v.iter().enumerate() {
        if i > 0 {
          out.push(',');
        }
        write(item, out);
      }
      out.push(']');
    }
    J::Obj(m) => {
      out.push('{');
      for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
          out.push(',');
        }
        write_str(k, out);
        out.push(':');
        write(v, out);
      }
      out.push('}');
    }
  }
}

fn write_str(v: &str, out: &mut String) {
  out.push('"');
  for c in v.chars() {
    match c {
      '"' => out.push_str("\\\""),
      '\\' => out.push_str("\\\\"),
      '\n' => out.push_str("\\n"),
      '\r' => out.push_str("\\r"),
      '\t' => out.push_str("\\t"),
      c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
      c => out.push(c),
    }
  }
  out.push('"');
}

pub fn parse(text: &str) -> J {
  let mut p = P {
    s: text.as_bytes(),
    i: 0,
  };
  let v = p.value();
  v
}

struct P<'a> {
  s: &'a [u8],
  i: usize,
}

impl<'a> P<'a> {
  fn ws(&mut self) {
    while self.i < self.s.len() && self.s[self.i] <= 32 {
      self.i += 1;
    }
  }

  fn value(&mut self) -> J {
    self.ws();
    match self.s[self.i] {
      b'n' => {
        self.i += 4;
        J::Null
      }
      b't' => {
        self.i += 4;
        J::Bool(true)
      }
      b'f' => {
        self.i += 5;
        J::Bool(false)
      }
      b'"' => J::Str(self.string()),
      b'[' => {
        self.i += 1;
        let mut v = Vec::new();
        loop {
          self.ws();
          if self.s[self.i] == b']' {
            self.i += 1;
            return J::Arr(v);
          }
          if self.s[self.i] == b',' {
            self.i += 1;
            continue;
          }
          v.push(self.value());
        }
      }
      b'{' => {
        self.i += 1;
        let mut m = BTreeMap::new();
        loop {
          self.ws();
          if self.s[self.i] == b'}' {
            self.i += 1;
            return J::Obj(m);
          }
          if self.s[self.i] == b',' {
            self.i += 1;
            continue;
          }
          let k = self.string();
          self.ws();
          assert!(self.s[self.i] == b':');
          self.i += 1;
          let v = self.value();
          m.insert(k, v);
        }
      }
      _ => {
        let start = self.i;
        while self.i < self.s.len()
          && (self.s[self.i] == b'-' || (self.s[self.i] >= b'0' && self.s[self.i] <= b'9'))
        {
          self.i += 1;
        }
        J::Int(
          std::str::from_utf8(&self.s[start..self.i])
            .unwrap()
            .parse()
            .expect("harness: bad JSON number"),
        )
      }
    }
  }

  fn string(&mut self) -> String {
    assert!(self.s[self.i] == b'"');
    self.i += 1;
    let mut out: Vec<u8> = Vec::new();
    loop {
      match self.s[self.i] {
        b'"' => {
          self.i += 1;
          return String::from_utf8(out).unwrap();
        }
        b'\\' => {
          let c = self.s[self.i + 1];
          self.i += 2;
          match c {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'u' => {
              let mut code = self.hex();
              if code >= 0xD800 && code < 0xDC00 {
                self.i += 2;
                let low = self.hex();
                code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
              }
              let mut buffer = [0; 4];
              out.extend(
                char::from_u32(code)
                  .unwrap()
                  .encode_utf8(&mut buffer)
                  .bytes(),
              );
            }
            c => out.push(c),
          }
        }
        c => {
          out.push(c);
          self.i += 1;
        }
      }
    }
  }

  fn hex(&mut self) -> u32 {
    let v = u32::from_str_radix(std::str::from_utf8(&self.s[self.i..self.i + 4]).unwrap(), 16)
      .unwrap();
    self.i += 4;
    v
  }
}
