#[path = "/repo/common/http_protocol/src/response.rs"] pub mod response;
