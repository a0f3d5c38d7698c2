#[tokio::test]
async fn demo() {
    let k = Keypair::new();
    let mut bank = Bank::new().await;
    let a = S::data(3, 0).build(&k);
    let b = S { fill: 2, ..S::data(3, 0) }.build(&k);
    bank.report(&k.pubkey(), SLOT, &a, &b).await.unwrap();
}
