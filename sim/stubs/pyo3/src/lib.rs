//! A stand-in for pyo3: just enough for rtest's `src/pyo3.rs` to compile and be driven without an interpreter.
use std::marker::PhantomData;

pub mod prelude {
    pub use crate::{pyfunction, pymodule, wrap_pyfunction, Bound, FromPyObject, PyAny, PyErr, PyModule, PyResult, Python};
    pub use pyo3_macros::pyo3;
}
pub use pyo3_macros::{pyfunction, pymodule};
pub mod types {
    pub use crate::PyModule;
}

#[derive(Debug, Clone)]
pub struct PyErr(pub String);
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for PyErr {}
pub type PyResult<T> = Result<T, PyErr>;

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

/// What `sys.executable` is in the simulated interpreter (None: the attribute lookup fails).
pub static EXECUTABLE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();

impl<'py> Python<'py> {
    pub fn assume() -> Python<'static> { Python(PhantomData) }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R { f(Python(PhantomData)) }
    pub fn import(self, name: &str) -> PyResult<Bound<'py, PyModule>> {
        Ok(Bound { value: PyModule { name: name.to_string(), functions: Default::default() }, _p: PhantomData })
    }
    pub fn allow_threads<T>(self, f: impl FnOnce() -> T) -> T { f() }
    pub fn detach<T>(self, f: impl FnOnce() -> T) -> T { f() }
    pub fn check_signals(self) -> PyResult<()> { Ok(()) }
}

pub struct Bound<'py, T> { pub value: T, _p: PhantomData<&'py ()> }

pub struct PyAny { pub text: Option<String> }

pub struct PyModule { pub name: String, pub functions: std::cell::RefCell<Vec<Function>> }

pub trait FromPyObject: Sized { fn from_text(t: &Option<String>) -> PyResult<Self>; }
impl FromPyObject for String {
    fn from_text(t: &Option<String>) -> PyResult<Self> { t.clone().ok_or_else(|| PyErr("not a string".into())) }
}
impl FromPyObject for Option<String> {
    fn from_text(t: &Option<String>) -> PyResult<Self> { Ok(t.clone()) }
}

impl<'py> Bound<'py, PyModule> {
    pub fn new_module(name: &str) -> Bound<'static, PyModule> {
        Bound { value: PyModule { name: name.to_string(), functions: Default::default() }, _p: PhantomData }
    }
    pub fn getattr(&self, attr: &str) -> PyResult<Bound<'py, PyAny>> {
        if self.value.name == "sys" && attr == "executable" {
            let text = EXECUTABLE.get().cloned().unwrap_or_else(|| Some("python3".to_string()));
            return Ok(Bound { value: PyAny { text }, _p: PhantomData });
        }
        Err(PyErr(format!("no attribute {attr}")))
    }
    pub fn add_function(&self, f: Function) -> PyResult<()> {
        self.value.functions.borrow_mut().push(f);
        Ok(())
    }
}
impl<'py> Bound<'py, PyAny> {
    pub fn extract<T: FromPyObject>(&self) -> PyResult<T> { T::from_text(&self.value.text) }
}

/// A function as registered by the module.
#[derive(Clone)]
pub struct Function { pub name: &'static str, pub call: Callable }

#[derive(Clone, Copy)]
pub enum Callable {
    Cli(fn(Python, Vec<String>)),
    CliStatus(fn(Python, Vec<String>) -> i32),
    Run(fn(Python, Option<Vec<String>>) -> i32),
}
pub fn cli(f: fn(Python, Vec<String>)) -> Callable { Callable::Cli(f) }
pub fn run(f: fn(Python, Option<Vec<String>>) -> i32) -> Callable { Callable::Run(f) }

#[macro_export]
macro_rules! wrap_pyfunction {
    (main_cli_with_args, $m:expr) => {{ let _ = &$m; Ok::<_, $crate::PyErr>($crate::Function { name: "main_cli_with_args", call: $crate::cli(main_cli_with_args) }) }};
    (run_tests, $m:expr) => {{ let _ = &$m; Ok::<_, $crate::PyErr>($crate::Function { name: "run_tests", call: $crate::run(run_tests) }) }};
}
