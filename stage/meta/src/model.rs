//! Stand-in for the meta client: one server that all clients share, with the conflict rules of the real state machine
//! (a table is created once, and updated only from the version it has), and a cache per client that is filled as the real
//! one is: by the answers of create_db and create_table, and by get_tskv_table_schema_by_meta. What the watch of the real
//! client brings later, `refresh` brings.
use crate::error::{MetaError, MetaResult};
use models::schema::database_schema::DatabaseSchema;
use models::schema::table_schema::TableSchema;
use models::schema::tskv_table_schema::TskvTableSchemaRef;
use std::sync::{Arc, Mutex};
#[derive(Debug, Clone, Default)]
pub struct State { pub dbs: Vec<DatabaseSchema>, pub tables: Vec<TskvTableSchemaRef> }
impl State {
    fn table(&self, db: &str, t: &str) -> Option<usize> { self.tables.iter().position(|s| s.db == db && s.name == t) }
    fn db(&self, db: &str) -> Option<usize> { self.dbs.iter().position(|s| s.database_name() == db) }
}
pub type Server = Arc<Mutex<State>>;
#[derive(Debug)]
pub struct AdminMeta { client: MetaClientRef }
pub type MetaRef = Arc<AdminMeta>;
#[derive(Debug)]
pub struct TenantMeta { server: Server, cache: Mutex<State>, pub race: Mutex<Option<TskvTableSchemaRef>> }
pub type MetaClientRef = Arc<TenantMeta>;
impl AdminMeta {
    pub fn new(server: Server) -> MetaRef {
        let cache = Mutex::new(server.lock().unwrap().clone());
        Arc::new(AdminMeta { client: Arc::new(TenantMeta { server, cache, race: Mutex::new(None) }) })
    }
    pub fn client(&self) -> MetaClientRef { self.client.clone() }
    pub async fn tenant_meta(&self, _: &str) -> Option<MetaClientRef> { Some(self.client.clone()) }
}
impl TenantMeta {
    pub fn refresh(&self) { *self.cache.lock().unwrap() = self.server.lock().unwrap().clone() }
    pub fn get_db_schema(&self, n: &str) -> MetaResult<Option<DatabaseSchema>> { let s = self.cache.lock().unwrap(); Ok(s.db(n).map(|i| s.dbs[i].clone())) }
    pub async fn create_db(&self, d: DatabaseSchema) -> MetaResult<()> {
        let mut s = self.server.lock().unwrap();
        if s.db(d.database_name()).is_some() { return Err(MetaError::DatabaseAlreadyExists { database: d.database_name().to_string() }) }
        s.dbs.push(d);
        *self.cache.lock().unwrap() = s.clone();
        Ok(())
    }
    pub fn get_tskv_table_schema(&self, db: &str, t: &str) -> MetaResult<Option<TskvTableSchemaRef>> { let s = self.cache.lock().unwrap(); Ok(s.table(db, t).map(|i| s.tables[i].clone())) }
    pub async fn get_tskv_table_schema_by_meta(&self, db: &str, t: &str) -> MetaResult<Option<TskvTableSchemaRef>> {
        let s = self.server.lock().unwrap();
        let Some(i) = s.table(db, t) else { return Ok(None) };
        let v = s.tables[i].clone();
        let mut c = self.cache.lock().unwrap();
        match c.table(db, t) { Some(i) => c.tables[i] = v.clone(), None => c.tables.push(v.clone()) }
        Ok(Some(v))
    }
    /// Puts the schema another node committed just before this one's own attempt.
    fn raced(&self, s: &mut State) {
        if let Some(o) = self.race.lock().unwrap().take() {
            match s.table(&o.db, &o.name) { Some(i) => s.tables[i] = o, None => s.tables.push(o) }
        }
    }
    pub async fn create_table(&self, t: &TableSchema) -> MetaResult<()> {
        let TableSchema::TsKvTableSchema(t) = t else { return Err(MetaError::NotSupport { msg: String::new() }) };
        let mut s = self.server.lock().unwrap();
        self.raced(&mut s);
        if s.table(&t.db, &t.name).is_some() { return Err(MetaError::TableAlreadyExists { table_name: t.name.to_string() }) }
        s.tables.push(t.clone());
        *self.cache.lock().unwrap() = s.clone();
        Ok(())
    }
    pub async fn update_table(&self, t: &TableSchema) -> MetaResult<()> {
        let TableSchema::TsKvTableSchema(t) = t else { return Err(MetaError::NotSupport { msg: String::new() }) };
        let mut s = self.server.lock().unwrap();
        self.raced(&mut s);
        match s.table(&t.db, &t.name) {
            Some(i) => {
                if s.tables[i].schema_version + 1 != t.schema_version { return Err(MetaError::UpdateTableConflict { name: t.name.clone() }) }
                s.tables[i] = t.clone();
            }
            None => s.tables.push(t.clone()),
        }
        Ok(())
    }
    pub fn list_tables(&self, db: &str) -> MetaResult<Vec<String>> { Ok(self.cache.lock().unwrap().tables.iter().filter(|t| t.db == db).map(|t| t.name.to_string()).collect()) }
    pub async fn drop_table(&self, db: &str, t: &str) -> MetaResult<()> {
        let mut s = self.server.lock().unwrap();
        let Some(i) = s.table(db, t) else { return Err(MetaError::TableNotFound { table: t.to_string() }) };
        s.tables.remove(i);
        Ok(())
    }
}
