%% module error error.rs
%% attr Error : #[derive(Debug, Clone)]
%% attr Error noderive : x
