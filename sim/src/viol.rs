use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    /// the properties this breaks
    pub tags: Vec<String>,
    /// short stable name of what went wrong
    pub kind: String,
    pub detail: String,
    #[serde(default)]
    pub step: usize,
}

impl Viol {
    pub fn new(tags: &[&str], kind: &str, detail: String) -> Viol {
        Viol { tags: tags.iter().map(|x| x.to_string()).collect(), kind: kind.to_string(), detail, step: 0 }
    }
    pub fn has(&self, id: &str) -> bool {
        self.tags.iter().any(|t| t == id)
    }
}
