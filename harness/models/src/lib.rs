pub mod time; pub mod pred;
