//! The real clap, except that `Parser::parse` takes the simulated session's arguments.
pub use clap_real::*;

pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        Self::parse_from(simrt::current().args())
    }
    fn parse_from<I, T>(itr: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        match Self::try_parse_from(itr) {
            Ok(v) => v,
            Err(e) => {
                simrt::print_err(&e.to_string());
                simrt::exit(if e.use_stderr() { 2 } else { 0 })
            }
        }
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(simrt::current().args())
    }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        let m = <Self as CommandFactory>::command().try_get_matches_from(itr)?;
        <Self as FromArgMatches>::from_arg_matches(&m)
    }
}
