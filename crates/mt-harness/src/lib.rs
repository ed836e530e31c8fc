#[cfg(mango_verif)]
mod verif {
    include!(env!("MANGO_VERIF_HARNESS"));
}
