pub mod engine;
pub mod model;
pub mod sys;
pub mod shapes;
