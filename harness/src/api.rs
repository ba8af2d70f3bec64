//! Calls into the library under test, with diagnostics turned into plain data.

use avdl::{Idl, Idl2Schemata};
use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme, Report, SourceCode, SourceSpan};
use serde_json::Value;
use std::path::{Path, PathBuf};

pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

#[derive(Clone, Debug, PartialEq)]
pub struct Label {
    pub offset: usize,
    pub len: usize,
    pub text: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub message: String,
    pub chain: Vec<String>,
    pub labels: Vec<Label>,
    /// Name and text of the source the labels refer to.
    pub source: Option<(String, String)>,
    pub help: Option<String>,
    pub severity: Option<String>,
    pub related: Vec<Diag>,
    pub rendered: String,
}
impl Diag {
    /// Everything readable in the diagnostic and its relatives.
    pub fn all_text(&self) -> String {
        let mut s = format!("{}\n{}\n", self.message, self.chain.join("\n"));
        for l in &self.labels {
            if let Some(t) = &l.text {
                s.push_str(t);
                s.push('\n');
            }
        }
        if let Some(h) = &self.help {
            s.push_str(h);
            s.push('\n');
        }
        for r in &self.related {
            s.push_str(&r.all_text());
        }
        s
    }
    /// Labels of this diagnostic and its relatives with their sources.
    pub fn all_labels(&self) -> Vec<(Label, Option<(String, String)>)> {
        let mut v: Vec<_> = self.labels.iter().map(|l| (l.clone(), self.source.clone())).collect();
        for r in &self.related {
            v.extend(r.all_labels());
        }
        v
    }
}

fn source_of(d: &dyn Diagnostic) -> Option<(String, String)> {
    let s: &dyn SourceCode = d.source_code()?;
    let c = s.read_span(&SourceSpan::new(0.into(), 0), 0, usize::MAX / 4).ok()?;
    let text = String::from_utf8_lossy(c.data()).into_owned();
    Some((c.name().unwrap_or("").to_string(), text))
}

/// Showing many reports of one long text takes time quadratic in its length (which is not claimed otherwise), so
/// only some of them are looked at.
const VOLUME: usize = 8_000_000;

fn diag_of(d: &dyn Diagnostic) -> Diag {
    let source = source_of(d);
    let most = VOLUME / source.as_ref().map_or(1, |s| s.1.len().max(1));
    Diag {
        message: d.to_string(),
        chain: vec![],
        labels: d
            .labels()
            .map(|l| {
                l.map(|x| Label { offset: x.offset(), len: x.len(), text: x.label().map(|s| s.to_string()) }).collect()
            })
            .unwrap_or_default(),
        source,
        help: d.help().map(|h| h.to_string()),
        severity: d.severity().map(|s| format!("{s:?}")),
        related: d.related().map(|r| r.take(most.max(50)).map(diag_of).collect()).unwrap_or_default(),
        rendered: String::new(),
    }
}

pub fn diag(r: &Report) -> Diag {
    let mut d = diag_of(r.as_ref());
    d.chain = r.chain().map(|c| c.to_string()).collect();
    let mut out = String::new();
    let many = r.related().map_or(0, |r| r.count());
    if d.source.as_ref().is_some_and(|s| s.1.len() * many > VOLUME) {
        d.rendered = format!("<<{many} reports>>");
        return d;
    }
    let h = GraphicalReportHandler::new_themed(GraphicalTheme::none()).with_width(200);
    match h.render_report(&mut out, r.as_ref()) {
        Ok(()) => d.rendered = out,
        Err(_) => d.rendered = "<<rendering failed>>".into(),
    }
    d
}
pub fn diags(rs: &[Report]) -> Vec<Diag> {
    rs.iter().map(diag).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Conv {
    pub res: Result<Value, Diag>,
    /// Warnings returned with the result.
    pub warnings: Vec<Diag>,
    /// Warnings drained afterwards.
    pub drained: Vec<Diag>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Extr {
    pub res: Result<Vec<(String, Value)>, Diag>,
    pub warnings: Vec<Diag>,
    pub drained: Vec<Diag>,
}

pub fn fin_conv(r: miette::Result<avdl::IdlOutput>, drained: Vec<Report>) -> Conv {
    match r {
        Ok(o) => Conv { res: Ok(o.json), warnings: diags(&o.warnings), drained: diags(&drained) },
        Err(e) => Conv { res: Err(diag(&e)), warnings: vec![], drained: diags(&drained) },
    }
}
pub fn fin_extr(r: miette::Result<avdl::SchemataOutput>, drained: Vec<Report>) -> Extr {
    match r {
        Ok(o) => Extr {
            res: Ok(o.schemas.into_iter().map(|s| (s.name, s.schema)).collect()),
            warnings: diags(&o.warnings),
            drained: diags(&drained),
        },
        Err(e) => Extr { res: Err(diag(&e)), warnings: vec![], drained: diags(&drained) },
    }
}

pub fn convert(src: &str) -> Conv {
    let mut i = Idl::new();
    let r = i.convert_str(leak(src));
    fin_conv(r, i.drain_warnings())
}
pub fn extract(src: &str) -> Extr {
    let mut i = Idl2Schemata::new();
    let r = i.extract_str(leak(src));
    fin_extr(r, i.drain_warnings())
}
pub fn convert_file(p: &Path, dirs: &[PathBuf]) -> Conv {
    let mut i = Idl::new();
    for d in dirs {
        i.import_dir(d.clone());
    }
    let r = i.convert(p);
    fin_conv(r, i.drain_warnings())
}
pub fn extract_path(p: &Path, dirs: &[PathBuf]) -> Extr {
    let mut i = Idl2Schemata::new();
    for d in dirs {
        i.import_dir(d.clone());
    }
    let r = i.extract(p);
    fin_extr(r, i.drain_warnings())
}
/// Result without the (expensive) rendering of diagnostics.
pub fn convert_quick(src: &str) -> Result<Value, String> {
    Idl::new().convert_str(leak(src)).map(|o| o.json).map_err(|e| err_text(&e))
}
pub fn convert_file_quick(p: &Path, dirs: &[PathBuf]) -> Result<Value, String> {
    let mut i = Idl::new();
    for d in dirs {
        i.import_dir(d.clone());
    }
    i.convert(p).map(|o| o.json).map_err(|e| err_text(&e))
}
pub fn extract_quick(src: &str) -> Result<Vec<(String, Value)>, String> {
    Idl2Schemata::new()
        .extract_str(leak(src))
        .map(|o| o.schemas.into_iter().map(|s| (s.name, s.schema)).collect())
        .map_err(|e| err_text(&e))
}
pub fn err_text(e: &Report) -> String {
    e.chain().map(|c| c.to_string()).collect::<Vec<_>>().join(": ")
}
