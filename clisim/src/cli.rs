//! The command-line tool itself: its main.rs, unchanged.

include!("../../../repo/jxl_cli/src/main.rs");

pub fn call() -> Result<()> {
    main()
}
