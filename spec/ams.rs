//! Reference models: markup of statements.
use super::*;

pub fn marked(doc: &Document) -> bool { has_markup_xmldoc(&doc.dom) }
pub fn marked_dom(dom: &XmlDoc) -> bool {
  let found = Context::new(dom).unwrap().evaluate("//*[local-name()='div' and contains(@class,'ltx_theorem')][1]");
  if let Ok(nodes) = found {
    !nodes.get_nodes_as_vec().is_empty()
  } else {
    false
  }
}

/// the environment a class attribute declares
pub fn declared(class: &str) -> Option<AmsEnv> {
  if class.contains("ltx_theorem") {
    lazy_static! {
      static ref ENV: Regex = Regex::new(r"ltx_theorem_(\w+)").unwrap();
    }
    return Some(match ENV.captures(class) {
      Some(found) => normalize_env(found.get(1).unwrap().as_str()),
      None => AmsEnv::Theorem,
    });
  }
  if class == "ltx_proof" {
    Some(AmsEnv::Proof)
  } else {
    None
  }
}

pub fn env_name(env: &AmsEnv, out: &mut fmt::Formatter) -> fmt::Result {
  out.write_str(match env {
    AmsEnv::Acknowledgement => "acknowledgement",
    AmsEnv::Affirmation => "affirmation",
    AmsEnv::Algorithm => "algorithm",
    AmsEnv::Answer => "answer",
    AmsEnv::Assumption => "assumption",
    AmsEnv::Bound => "bound",
    AmsEnv::Caption => "caption",
    AmsEnv::Case => "case",
    AmsEnv::Claim => "claim",
    AmsEnv::Comment => "comment",
    AmsEnv::Conclusion => "conclusion",
    AmsEnv::Condition => "condition",
    AmsEnv::Conjecture => "conjecture",
    AmsEnv::Constraint => "constraint",
    AmsEnv::Convention => "convention",
    AmsEnv::Corollary => "corollary",
    AmsEnv::Criterion => "criterion",
    AmsEnv::Definition => "definition",
    AmsEnv::Demonstration => "demonstration",
    AmsEnv::Discussion => "discussion",
    AmsEnv::Example => "example",
    AmsEnv::Expansion => "expansion",
    AmsEnv::Expectation => "expectation",
    AmsEnv::Experiment => "experiment",
    AmsEnv::Explanation => "explanation",
    AmsEnv::Fact => "fact",
    AmsEnv::Hint => "hint",
    AmsEnv::Issue => "issue",
    AmsEnv::Keywords => "keywords",
    AmsEnv::Lemma => "lemma",
    AmsEnv::Notation => "notation",
    AmsEnv::Note => "note",
    AmsEnv::Notice => "notice",
    AmsEnv::Observation => "observation",
    AmsEnv::Other => "other",
    AmsEnv::Paragraph => "paragraph",
    AmsEnv::Principle => "principle",
    AmsEnv::Problem => "problem",
    AmsEnv::Proof => "proof",
    AmsEnv::Proposition => "proposition",
    AmsEnv::Question => "question",
    AmsEnv::Remark => "remark",
    AmsEnv::Result => "result",
    AmsEnv::Rule => "rule",
    AmsEnv::Solution => "solution",
    AmsEnv::Step => "step",
    AmsEnv::Summary => "summary",
    AmsEnv::Theorem => "theorem",
  })
}

pub fn heading_name(env: &StructuralEnv, out: &mut fmt::Formatter) -> fmt::Result { out.write_str(name_of(*env)) }
fn name_of(env: StructuralEnv) -> &'static str {
  use StructuralEnv as S;
  match env {
    S::Abstract => "abstract",
    S::Acknowledgement => "acknowledgement",
    S::Analysis => "analysis",
    S::Application => "application",
    S::Assumption => "assumption",
    S::Background => "background",
    S::Case => "case",
    S::Caption => "caption",
    S::Claim => "claim",
    S::Conclusion => "conclusion",
    S::Condition => "condition",
    S::Conjecture => "conjecture",
    S::Contribution => "contribution",
    S::Corollary => "corollary",
    S::Data => "data",
    S::Dataset => "dataset",
    S::Definition => "definition",
    S::Demonstration => "demonstration",
    S::Description => "description",
    S::Discussion => "discussion",
    S::Example => "example",
    S::Experiment => "experiment",
    S::Fact => "fact",
    S::FutureWork => "future work",
    S::Implementation => "implementation",
    S::Introduction => "introduction",
    S::Lemma => "lemma",
    S::Methods => "methods",
    S::Model => "model",
    S::Motivation => "motivation",
    S::Notation => "notation",
    S::Observation => "observation",
    S::Other => "other",
    S::Preliminaries => "preliminaries",
    S::Problem => "problem",
    S::Proof => "proof",
    S::Property => "property",
    S::Proposition => "proposition",
    S::Question => "question",
    S::RelatedWork => "related work",
    S::Remark => "remark",
    S::Result => "result",
    S::Simulation => "simulation",
    S::Step => "step",
    S::Summary => "summary",
    S::Theorem => "theorem",
    S::Theory => "theory",
  }
}

/// the kind a heading stands for, by its normal form; the lower-case heading is normalised
pub fn kind_of_heading(heading: &str) -> StructuralEnv {
  use StructuralEnv as S;
  match data_helpers::normalize_heading_title(&heading.to_lowercase()).as_str() {
    "abstract" => S::Abstract,
    "acknowledgement" => S::Acknowledgement,
    "analysis" => S::Analysis,
    "application" => S::Application,
    "assumption" => S::Assumption,
    "background" => S::Background,
    "case" => S::Case,
    "caption" => S::Caption,
    "claim" => S::Claim,
    "conclusion" => S::Conclusion,
    "condition" => S::Condition,
    "conjecture" => S::Conjecture,
    "contribution" => S::Contribution,
    "corollary" => S::Corollary,
    "data" => S::Data,
    "dataset" => S::Dataset,
    "definition" => S::Definition,
    "demonstration" => S::Demonstration,
    "description" => S::Description,
    "discussion" => S::Discussion,
    "example" => S::Example,
    "experiment" => S::Experiment,
    "fact" => S::Fact,
    "future work" => S::FutureWork,
    "implementation" => S::Implementation,
    "introduction" => S::Introduction,
    "lemma" => S::Lemma,
    "methods" => S::Methods,
    "model" => S::Model,
    "motivation" => S::Motivation,
    "notation" => S::Notation,
    "observation" => S::Observation,
    "preliminaries" => S::Preliminaries,
    "problem" => S::Problem,
    "proof" => S::Proof,
    "property" => S::Property,
    "proposition" => S::Proposition,
    "question" => S::Question,
    "related work" => S::RelatedWork,
    "remark" => S::Remark,
    "result" => S::Result,
    "simulation" => S::Simulation,
    "step" => S::Step,
    "summary" => S::Summary,
    "theorem" => S::Theorem,
    "theory" => S::Theory,
    _ => S::Other,
  }
}
