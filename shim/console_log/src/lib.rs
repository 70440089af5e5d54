pub fn init_with_level(_l: log::Level) -> Result<(), log::SetLoggerError> {
    Ok(())
}
