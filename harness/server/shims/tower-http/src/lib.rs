pub mod services { #[derive(Clone)] pub struct ServeDir(pub String); impl ServeDir { pub fn new(p: impl Into<String>) -> Self { ServeDir(p.into()) } } }
