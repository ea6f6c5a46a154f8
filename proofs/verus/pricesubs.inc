//@src gpcfg crates/host/gas/src/pricing/cfg.rs
//@src gpricing crates/host/gas/src/pricing/mod.rs
//@src gfprice crates/host/gas/src/pricing/func_price.rs
//@sub dyn PriceResolver ==> Resolver
//@sub IndexMap < F , usize > ==> PriceMap
