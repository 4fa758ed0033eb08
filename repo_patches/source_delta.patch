From 936bac20876b9ee3b5b6c0de47806a15c6484331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 1/6] fix: swap output never rounds up and spread does not
 underflow

The constant-product output was computed as ask_pool - trunc18(K / (offer_pool +
offer_amount)). Once the offer side exceeds 10^18 base units the truncated
quotient is too small, so the trader could receive one unit more than the curve
allows and the product of the reserves decreased. The spread used an 18-digit
reference price, which underflowed (refusing the swap) for pairs of very
different unit sizes. Both are now computed over a single denominator.
---
 contracts/halo-pair/src/contract.rs | 31 +++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..aac49e7 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,8 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128,
+    Uint256 as StdUint256, WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -597,6 +598,15 @@ fn compute_swap(
     ask_pool: Uint128,
     offer_amount: Uint128,
 ) -> (Uint128, Uint128, Uint128) {
+    // calculate the spread_amount
+    // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B = \frac{R_B * A^2}{R_A * (R_A + A)}
+    let spread_amount: StdUint256 = StdUint256::from(offer_amount).multiply_ratio(
+        ask_pool.full_mul(offer_amount),
+        StdUint256::from(offer_pool)
+            * (StdUint256::from(offer_pool) + StdUint256::from(offer_amount)),
+    );
+    let spread_amount: Uint128 = spread_amount.try_into().expect("spread amount overflow");
+
     let offer_pool: Uint256 = Uint256::from(offer_pool);
     let ask_pool: Uint256 = ask_pool.into();
     let offer_amount: Uint256 = offer_amount.into();
@@ -608,29 +618,16 @@ fn compute_swap(
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
     // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
-
-    // calculate the spread_amount
-    // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    // over a single denominator (R_B * A / (R_A + A)), so that it is never rounded up
+    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
 
     // commission will be absorbed to pool and the currency will be the same as the ask currency
     let return_amount: Uint256 = return_amount - commission_amount;
-    (
-        return_amount.into(),
-        spread_amount.into(),
-        commission_amount.into(),
-    )
+    (return_amount.into(), spread_amount, commission_amount.into())
 }
 
 #[test]
-- 
2.43.0


From 84838d25d2a1d54d383ce1fe74fd8c74771e2f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 2/6] fix: first provision no longer overflows for large
 deposits

The initial share multiplied both deposits as u128, so a first provision of two
18-decimal assets with more than about 18 whole tokens each panicked and the
pool could never be seeded. Take the square root of the 256-bit product.
---
 contracts/halo-pair/src/contract.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index aac49e7..1c8ba6c 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,7 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128,
+    Env, Isqrt, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128,
     Uint256 as StdUint256, WasmMsg,
 };
 
@@ -21,7 +21,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -295,7 +294,8 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        // the product of two 128-bit deposits needs 256 bits
+        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
@@ -627,7 +627,11 @@ fn compute_swap(
 
     // commission will be absorbed to pool and the currency will be the same as the ask currency
     let return_amount: Uint256 = return_amount - commission_amount;
-    (return_amount.into(), spread_amount, commission_amount.into())
+    (
+        return_amount.into(),
+        spread_amount,
+        commission_amount.into(),
+    )
 }
 
 #[test]
-- 
2.43.0


From db2f7948bff977a3ca0e23e6003adc89997c229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 3/6] fix: refuse a pair of one token written in two ways

The same-asset check compares the addresses as given. An address in another
case names the same contract, so a pair of a token with itself could be
created. Compare the canonical assets as well.
---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..282f494 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same token address can be written in different ways (e.g. in upper case)
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0


From 12947ad11ee117e7460e727df55ad788f531df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 4/6] fix: pair query never returns a pair of other assets

Pairs are stored under the concatenation of their two asset ids, so the
denoms (ab, c) and (a, bc) share a key and a lookup of a pair that does not
exist could return another pair's record. Return it only if its assets are
the ones asked for.
---
 contracts/halo-factory/src/contract.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 282f494..8112c41 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -292,11 +292,20 @@ pub fn query_config(deps: Deps) -> StdResult<ConfigResponse> {
 }
 
 pub fn query_pair(deps: Deps, asset_infos: [AssetInfo; 2]) -> StdResult<PairInfo> {
-    let pair_key = pair_key(&[
+    let raw_infos = [
         asset_infos[0].to_raw(deps.api)?,
         asset_infos[1].to_raw(deps.api)?,
-    ]);
-    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key)?;
+    ];
+    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key(&raw_infos))?;
+
+    // different assets can share a key, because it is a plain concatenation
+    if !raw_infos
+        .iter()
+        .all(|info| pair_info.asset_infos.contains(info))
+    {
+        return Err(StdError::not_found("PairInfoRaw"));
+    }
+
     pair_info.to_normal(deps.api)
 }
 
-- 
2.43.0


From 36276e52cecf318fe44d378d7b2c18a6be7bdacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 5/6] fix: a route's outputs of equal text but different kind
 are different assets

---
 contracts/halo-router/src/contract.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-router/src/contract.rs b/contracts/halo-router/src/contract.rs
index 3e430d2..c1ba9db 100644
--- a/contracts/halo-router/src/contract.rs
+++ b/contracts/halo-router/src/contract.rs
@@ -334,7 +334,8 @@ fn reverse_simulate_return_amount(
 }
 
 fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
-    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
+    // a native denom and a token contract of the same text are different assets
+    let mut ask_asset_map: HashMap<(bool, String), bool> = HashMap::new();
     for operation in operations.iter() {
         let (offer_asset, ask_asset) = match operation {
             SwapOperation::HaloSwap {
@@ -343,8 +344,8 @@ fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
             } => (offer_asset_info.clone(), ask_asset_info.clone()),
         };
 
-        ask_asset_map.remove(&offer_asset.to_string());
-        ask_asset_map.insert(ask_asset.to_string(), true);
+        ask_asset_map.remove(&(offer_asset.is_native_token(), offer_asset.to_string()));
+        ask_asset_map.insert((ask_asset.is_native_token(), ask_asset.to_string()), true);
     }
 
     if ask_asset_map.keys().len() != 1 {
-- 
2.43.0


From b8ba65a8604dd0294a9272e336cb2c75971db71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 6/6] fix: a page of pairs skipped the ones whose key continues
 the cursor's key

The cursor was the last pair's key with a byte 1 appended, so a pair whose
key is that key followed by a zero byte (a token address that starts with
the bytes of a denom) was never listed. The range now starts right after
the key itself.
---
 contracts/halo-factory/src/state.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/contracts/halo-factory/src/state.rs b/contracts/halo-factory/src/state.rs
index 9a7dc05..cd44fc7 100644
--- a/contracts/halo-factory/src/state.rs
+++ b/contracts/halo-factory/src/state.rs
@@ -52,18 +52,13 @@ pub fn read_pairs(
         .collect::<StdResult<Vec<PairInfo>>>()
 }
 
-// this will set the first key after the provided key, by appending a 1 byte
+// the key of the provided pair: the range starts right after it
 fn calc_range_start(start_after: Option<[AssetInfoRaw; 2]>) -> Option<Vec<u8>> {
     start_after.map(|asset_infos| {
         let mut asset_infos = asset_infos.to_vec();
         asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
 
-        let mut v = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()]
-            .concat()
-            .as_slice()
-            .to_vec();
-        v.push(1);
-        v
+        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
     })
 }
 
-- 
2.43.0

