include!(concat!(env!("OUT_DIR"), "/src/cli_main.rs"));
