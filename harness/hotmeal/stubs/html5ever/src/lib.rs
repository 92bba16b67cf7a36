//! Stand-in for `html5ever` (the fork hotmeal uses is not available offline): interned names, the
//! tree-construction interface, and two drivers for it - a parser for well-formed markup and a
//! player of callback scripts.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt;
pub use tendril;
use tendril::{StrTendril, TendrilSink};

pub mod names;
pub mod parser;
pub mod script;
pub use names::*;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct QualName { pub prefix: Option<Prefix>, pub ns: Namespace, pub local: LocalName }
impl QualName { pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> Self { QualName { prefix, ns, local } } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attribute { pub name: QualName, pub value: StrTendril }

pub mod interface { pub use super::{Attribute, QualName}; }

pub mod tree_builder {
    use super::*;
    pub trait ElemName: fmt::Debug {
        fn ns(&self) -> &Namespace;
        fn local_name(&self) -> &LocalName;
    }
    #[derive(Default, Clone, Copy, Debug)]
    #[non_exhaustive]
    pub struct ElementFlags { pub template: bool, pub mathml_annotation_xml_integration_point: bool }
    #[derive(Debug, Clone)]
    pub enum NodeOrText<H> { AppendNode(H), AppendText(StrTendril) }
    #[derive(PartialEq, Eq, Clone, Copy, Debug, Hash)]
    pub enum QuirksMode { Quirks, LimitedQuirks, NoQuirks }

    pub trait TreeSink {
        type Handle: Clone;
        type Output;
        type ElemName<'a>: ElemName where Self: 'a;
        fn finish(self) -> Self::Output;
        fn parse_error(&self, msg: Cow<'static, str>);
        fn get_document(&self) -> Self::Handle;
        fn elem_name<'a>(&'a self, target: &'a Self::Handle) -> Self::ElemName<'a>;
        fn create_element(&self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> Self::Handle;
        fn create_comment(&self, text: StrTendril) -> Self::Handle;
        fn create_pi(&self, target: StrTendril, data: StrTendril) -> Self::Handle;
        fn append(&self, parent: &Self::Handle, child: NodeOrText<Self::Handle>);
        fn append_based_on_parent_node(&self, element: &Self::Handle, prev_element: &Self::Handle, child: NodeOrText<Self::Handle>);
        fn append_doctype_to_document(&self, name: StrTendril, public_id: StrTendril, system_id: StrTendril);
        fn mark_script_already_started(&self, _node: &Self::Handle) {}
        fn pop(&self, _node: &Self::Handle) {}
        fn get_template_contents(&self, target: &Self::Handle) -> Self::Handle;
        fn same_node(&self, x: &Self::Handle, y: &Self::Handle) -> bool;
        fn set_quirks_mode(&self, mode: QuirksMode);
        fn append_before_sibling(&self, sibling: &Self::Handle, new_node: NodeOrText<Self::Handle>);
        fn add_attrs_if_missing(&self, target: &Self::Handle, attrs: Vec<Attribute>);
        fn associate_with_form(&self, _target: &Self::Handle, _form: &Self::Handle, _nodes: (&Self::Handle, Option<&Self::Handle>)) {}
        fn remove_from_parent(&self, target: &Self::Handle);
        fn reparent_children(&self, node: &Self::Handle, new_parent: &Self::Handle);
        fn is_mathml_annotation_xml_integration_point(&self, _handle: &Self::Handle) -> bool { false }
        fn set_current_line(&self, _line: u64) {}
        fn allow_declarative_shadow_roots(&self, _p: &Self::Handle) -> bool { true }
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct TreeBuilderOpts { pub scripting_enabled: bool }
}
use tree_builder::*;

pub mod tokenizer { #[derive(Clone, Debug, Default)] pub struct TokenizerOpts { pub exact_errors: bool } }

#[derive(Clone, Debug, Default)]
pub struct ParseOpts { pub tokenizer: tokenizer::TokenizerOpts, pub tree_builder: TreeBuilderOpts }

pub struct Parser<S> { sink: S, text: StrTendril, context: Option<QualName> }

pub mod driver { pub use super::{Parser, ParseOpts, parse_document, parse_fragment}; }

pub fn parse_document<S: TreeSink>(sink: S, _opts: ParseOpts) -> Parser<S> { Parser { sink, text: StrTendril::new(), context: None } }
pub fn parse_fragment<S: TreeSink>(sink: S, _opts: ParseOpts, context: QualName, _attrs: Vec<Attribute>, _scripting: bool) -> Parser<S> {
    Parser { sink, text: StrTendril::new(), context: Some(context) }
}
impl<S: TreeSink> TendrilSink for Parser<S> {
    type Output = S::Output;
    fn process(&mut self, t: StrTendril) {
        if self.text.is_empty() { self.text = t } else { self.text.push_tendril(&t) }
    }
    fn finish(self) -> S::Output {
        if RECORD.with(|r| r.get()) { INPUTS.with(|v| v.borrow_mut().push(self.text.to_string())) }
        match script::take() {
            Some(ops) => script::play(&self.sink, &self.text, &ops),
            None => parser::parse(&self.sink, &self.text, self.context.as_ref()),
        }
        self.sink.finish()
    }
}

thread_local! {
    /// Inputs handed to the parser, for harnesses that look at them.
    pub static INPUTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    pub static RECORD: Cell<bool> = const { Cell::new(false) };
}
