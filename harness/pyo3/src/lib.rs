//! Stand-in for the interpreter side of the Python binding: the binding's own functions are
//! compiled unchanged against these types and called directly.
use std::cell::RefCell;

pub use pyo3_macros::*;

/// an exception
#[derive(Debug)]
pub struct PyErr {
    pub kind: &'static str,
    pub msg: String,
}
pub type PyResult<T> = Result<T, PyErr>;

impl From<std::io::Error> for PyErr {
    fn from(e: std::io::Error) -> Self {
        PyErr { kind: "OSError", msg: e.kind().to_string() }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.msg)
    }
}

#[derive(Clone, Copy)]
pub struct Python<'py>(std::marker::PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn assume() -> Self {
        Python(std::marker::PhantomData)
    }
    pub fn allow_threads<T>(self, f: impl FnOnce() -> T) -> T {
        f()
    }
}

/// collects what is registered
#[derive(Default)]
pub struct PyModule {
    pub names: RefCell<Vec<String>>,
}
pub struct PyCFunction(pub &'static str);
impl PyModule {
    pub fn add_class<T>(&self) -> PyResult<()> {
        let n = std::any::type_name::<T>();
        self.names.borrow_mut().push(n.rsplit("::").next().unwrap().to_string());
        Ok(())
    }
    pub fn add_function(&self, f: PyCFunction) -> PyResult<()> {
        self.names.borrow_mut().push(f.0.to_string());
        Ok(())
    }
    pub fn add<V>(&self, n: &str, _v: V) -> PyResult<()> {
        self.names.borrow_mut().push(n.to_string());
        Ok(())
    }
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path, $m:expr) => {{
        // it exists
        let _ = &$f;
        let _ = &$m;
        let n: &'static str = stringify!($f);
        Ok::<$crate::PyCFunction, $crate::PyErr>($crate::PyCFunction(n))
    }};
    ($f:path) => {
        $crate::wrap_pyfunction!($f, ())
    };
}

pub mod types {
    pub struct PyBytes(Vec<u8>);
    impl PyBytes {
        pub fn new<'py>(_: crate::Python<'py>, b: &[u8]) -> &'py PyBytes {
            Box::leak(Box::new(PyBytes(b.to_vec())))
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    pub use crate::PyModule;
}

pub mod exceptions {
    macro_rules! ex {
        ($($n:ident $k:literal)*) => {$(
            pub struct $n;
            impl $n {
                pub fn new_err(m: impl ToString) -> crate::PyErr {
                    crate::PyErr { kind: $k, msg: m.to_string() }
                }
            }
        )*};
    }
    ex!(PyValueError "ValueError" PyTypeError "TypeError" PyOSError "OSError" PyIOError "OSError" PyRuntimeError "RuntimeError" PyException "Exception" PyKeyError "KeyError" PyFileNotFoundError "FileNotFoundError");
}

pub mod prelude {
    pub use crate::{wrap_pyfunction, PyErr, PyModule, PyResult, Python};
    pub use pyo3_macros::*;
}
