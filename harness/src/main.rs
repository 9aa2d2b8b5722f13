#[macro_use]
mod engine;
mod dev;
mod baton;
mod c_dev;
mod d_long;
mod c_lock;
mod c_status;
#[cfg(any(feature = "raw", feature = "telnet"))]
mod c_text;
#[cfg(feature = "vxi")]
mod c_rpc;
#[cfg(feature = "vxi")]
mod c_vxi;
#[cfg(feature = "all")]
mod c_cross;
#[cfg(feature = "vxi")]
mod rpc;
#[cfg(feature = "vxi")]
mod v_long;
#[cfg(feature = "vxi")]
mod v_prompt;
mod net_util;
#[cfg(feature = "hislip")]
mod c_hislip;
#[cfg(feature = "hislip")]
mod h_long;
#[cfg(feature = "hislip")]
mod h_prompt;
#[cfg(feature = "hislip")]
mod hs;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;

fn main() {
    let mut props = Vec::new();
    props.extend(c_lock::props());
    props.extend(c_status::props());
    props.extend(c_dev::props());
    #[cfg(feature = "raw")]
    props.extend(c_text::raw::props());
    #[cfg(feature = "telnet")]
    props.extend(c_text::telnet::props());
    #[cfg(feature = "vxi")]
    props.extend(c_vxi::props());
    #[cfg(feature = "vxi")]
    props.extend(c_rpc::props());
    #[cfg(feature = "hislip")]
    props.extend(c_hislip::props());
    #[cfg(feature = "all")]
    props.extend(c_cross::props());
    std::process::exit(engine::main(props))
}
