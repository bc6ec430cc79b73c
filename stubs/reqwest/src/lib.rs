pub struct Response;
