//! plotline-cli
use std::path::PathBuf;
use std::sync::Arc;

use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::id::Identify;
use plotline_cli::document::{Document, DocumentCli, DocumentCommand};
use plotline_cli::repository::LocalDocumentRepository;

pub fn repo_find(r: &LocalDocumentRepository, id: &PathBuf) -> Option<Document> {
    r.find_by_id(id)
}
pub fn repo_all<F>(r: &Arc<LocalDocumentRepository>, f: F) where F: FnMut(LazyDocument<LocalDocumentRepository>) {
    r.all().for_each(f)
}
pub fn doc_id(d: &Document) -> PathBuf {
    d.id().clone()
}
pub fn cli_execute<R>(c: &DocumentCli<R>, cmd: DocumentCommand) -> anyhow::Result<()>
where R: 'static + DocumentRepository<Document = Document> {
    c.execute(cmd)
}
