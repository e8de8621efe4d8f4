//! Stand-in for the ruff-backed discovery: test ids come from marker comments in the file.
//!   #@test NAME            a test function        #@test CLASS::NAME      a method
//!   #@test NAME[case]      an expanded case       #@warn NAME             a test whose cases cannot be expanded
//!   #@parse-error TEXT     the file does not parse
use crate::collection::error::{CollectionError, CollectionResult, CollectionWarning};
use crate::collection::nodes::Function;
use crate::collection::glob_match;
use crate::collection::types::Location;
use std::fmt;
use std::path::Path;

#[derive(Debug, Clone)]
pub struct TestInfo {
    pub name: String,
    pub line: usize,
    pub is_method: bool,
    pub class_name: Option<String>,
    pub cases_expansion: CasesExpansion,
}

#[derive(Debug, Clone)]
pub struct TestDiscoveryConfig {
    pub python_classes: Vec<String>,
    pub python_functions: Vec<String>,
}
impl Default for TestDiscoveryConfig {
    fn default() -> Self {
        Self { python_classes: vec!["Test*".into()], python_functions: vec!["test*".into()] }
    }
}

#[derive(Debug, Clone)]
pub enum CasesExpansion {
    NotDecorated,
    Expanded(Vec<ExpandedCase>),
    CannotExpand(CannotExpandReason),
}
#[derive(Debug, Clone)]
pub struct ExpandedCase {
    pub case_id: String,
}
#[derive(Debug, Clone)]
pub struct CannotExpandReason(pub String);
impl fmt::Display for CannotExpandReason {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}

pub fn format_cannot_expand_warning(nodeid: &str, reason: &CannotExpandReason) -> String {
    format!("warning: Cannot statically expand test cases for '{nodeid}': {reason}")
}

pub fn discover_tests(path: &Path, source: &str, config: &TestDiscoveryConfig) -> CollectionResult<Vec<TestInfo>> {
    let mut out = Vec::new();
    for (i, line) in source.lines().enumerate() {
        if let Some(text) = line.strip_prefix("#@parse-error ") {
            return Err(CollectionError::ParseError(format!("Failed to parse {}: {}", path.display(), text)));
        }
        let (rest, warn) = match (line.strip_prefix("#@test "), line.strip_prefix("#@warn ")) {
            (Some(r), _) => (r, false),
            (_, Some(r)) => (r, true),
            _ => continue,
        };
        let (base, case) = match rest.find('[') {
            Some(k) => (&rest[..k], Some(rest[k + 1..].strip_suffix(']').unwrap_or(&rest[k + 1..]).to_string())),
            None => (rest, None),
        };
        let (class_name, name) = match base.rsplit_once("::") {
            Some((c, n)) => (Some(c.to_string()), n.to_string()),
            None => (None, base.to_string()),
        };
        let ok = |pats: &[String], name: &str| pats.iter().any(|p| glob_match(p, name));
        let classes_ok = class_name.as_deref().is_none_or(|c| c.split("::").all(|c| ok(&config.python_classes, c)));
        if !classes_ok || !ok(&config.python_functions, &name) {
            continue;
        }
        let cases_expansion = match (warn, case) {
            (true, _) => CasesExpansion::CannotExpand(CannotExpandReason("stub".into())),
            (false, Some(c)) => CasesExpansion::Expanded(vec![ExpandedCase { case_id: c }]),
            (false, None) => CasesExpansion::NotDecorated,
        };
        out.push(TestInfo { name, line: i + 1, is_method: class_name.is_some(), class_name, cases_expansion });
    }
    Ok(out)
}

pub fn discover_tests_with_inheritance(
    path: &Path,
    source: &str,
    config: &TestDiscoveryConfig,
    _root_path: &Path,
) -> CollectionResult<(Vec<TestInfo>, Vec<CollectionWarning>)> {
    Ok((discover_tests(path, source, config)?, vec![]))
}

pub fn test_info_to_functions(test: &TestInfo, module_path: &Path, module_nodeid: &str) -> Vec<Function> {
    let base = match &test.class_name {
        Some(c) => format!("{}::{}::{}", module_nodeid, c, test.name),
        None => format!("{}::{}", module_nodeid, test.name),
    };
    let one = |nodeid: String, name: String| Function {
        name: name.clone(),
        nodeid,
        location: Location { path: module_path.to_path_buf(), line: Some(test.line), name },
    };
    match &test.cases_expansion {
        CasesExpansion::Expanded(cases) => cases
            .iter()
            .map(|c| one(format!("{base}[{}]", c.case_id), format!("{}[{}]", test.name, c.case_id)))
            .collect(),
        _ => vec![one(base.clone(), test.name.clone())],
    }
}
