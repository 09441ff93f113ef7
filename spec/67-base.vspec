%% module base base.rs
