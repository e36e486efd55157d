#![allow(dead_code)]
mod util;
mod comments;
mod docgen;
mod docinfo;
mod order;
mod package;
mod paragraph;
mod run;
mod sections;
mod strings;
mod table;
mod text;
mod measures;
mod toggles;
mod total;
mod numbering;
mod styles;
mod changes;
mod fields;
mod flat;
mod json;
mod drawings;
mod lexical;
