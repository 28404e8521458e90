MATH="common/math/src/math.rs"; RATES="common/rates/src/rates.rs"
POOL="liquidity_layer/src/liquidity.rs"; PUTIL="liquidity_layer/src/utils.rs"; PCACHE="liquidity_layer/src/cache/mod.rs"
UNIT="The stable unit tests only exercise a few dozen concrete operands of the arithmetic helpers; the contract scenario tests sample fixed amounts"
NOTE=("Bounded: every value of the symbolic inputs within the bounds printed in the evidence file is decided by the SMT solver on every feasible path "
      "of the compiled contract code. Trusts the symbolic VM (host) model, the term normaliser and interval reasoner, and z3/cvc5; counterexamples are replayed concretely.")
PROPS=[]
NOT_APPLICABLE=[]
import re,os
def line(name,where):
    f=where.split(":")[0]
    try: src=open("/repo/"+f).read().split("\n")
    except OSError: raise SystemExit("no file "+f)
    for n in re.findall(r"[a-z_0-9]+",name):
        for i,l in enumerate(src):
            if re.search(r"\bfn "+n+r"\b",l): return f"{f}:{i+1}"
    return where
def P(id,title,statement,over,quant,mech,why=None,note=NOTE,observe=None):
    mech=[(n,line(n,w)) for n,w in mech]
    PROPS.append(dict(id=id,title=title,statement=statement,over=over,quant=quant,mech=mech,why=why or (UNIT+", not all inputs."),note=note,observe=observe or []))

P("C01","Fixed-point arithmetic is exact up to half-up rounding",
  "Every multiplication, division and change of precision returns the exact rational result rounded half up (half away from zero for signed values) at the target precision, and never fails on a non-zero divisor. Minimum and maximum pick the right operand.",
  ["inputs"],"all operands up to 1e45 raw units, at every precision pair the contracts use",
  [("mul_half_up/div_half_up/rescale_half_up and the signed forms",f"{MATH}:1")])
P("C02","The interest-rate curve is the configured one",
  "The borrow rate is the configured piecewise-linear function of utilization, capped at the configured maximum, never below the base rate and never decreasing as utilization rises; the deposit rate is utilization times borrow rate less the protocol's share. The rates shown to users are these rates.",
  ["inputs","configurations"],"all parameter sets the contract accepts, all utilizations, all pool states",
  [("calculate_borrow_rate / calculate_deposit_rate",f"{RATES}:1"),("view endpoints","liquidity_layer/src/view.rs:1")])
P("C03","Interest compounds by the documented series and never shrinks debt",
  "The growth factor over an interval is one plus the documented terms of the exponential series in rate times time; it is at least one, is exactly one when no time passes or the rate is zero, and does not decrease with time.",
  ["inputs"],"all rates up to 1000% a year and all intervals up to three years",
  [("calculate_compounded_interest",f"{RATES}:1")])
P("C04","Interest accrual creates exactly what borrowers owe",
  "When time passes, the borrow index grows by the compounding factor, and the interest owed is split between depositors and the protocol by the reserve factor with nothing created or lost beyond rounding. Indexes never fall through accrual, and accrual never fails.",
  ["inputs","histories"],"all pool states, accepted parameters and elapsed times",
  [("update_borrow_index, update_supply_index, calculate_supplier_rewards",f"{RATES}:1"),("global_sync, add_protocol_revenue",f"{PUTIL}:1")])
P("C05","Previewed indexes equal the executed ones",
  "The indexes predicted for the current block by the read-only preview are exactly the indexes a pool update executed in the same block would store, and the preview succeeds exactly when the update does.",
  ["inputs","histories"],"all pool states, elapsed times and accepted parameters",
  [("simulate_update_indexes",f"{RATES}:1"),("update_indexes",f"{POOL}:1")])
P("C06","Deposits and withdrawals move exactly the value they should",
  "A deposit credits the depositor and the pool with the payment at the current index and takes exactly the payment; a withdrawal pays the smaller of the request and the position's value, only from available cash, and debits both ledgers alike. An immediate full withdrawal returns exactly the deposit, and splitting withdrawals cannot extract more.",
  ["inputs","histories"],"all pool states, positions and amounts",
  [("supply / withdraw",f"{POOL}:1"),("calculate_gross_withdrawal_amounts",f"{PCACHE}:1")])
P("C07","Borrowing and repaying move exactly the debt they should",
  "A borrower receives exactly the borrowed amount, out of available cash, and owes it at the current index; a repayment reduces the debt by its value, refunds exactly the excess, and can always clear the debt. Nothing else in the pool changes.",
  ["inputs","histories"],"all pool states, debts and amounts",
  [("borrow / repay",f"{POOL}:1"),("calculate_repayment_details",f"{PCACHE}:1")])
P("C08","Liquidation fees are taken only from seized collateral",
  "A collateral seizure pays the liquidator the seized amount less the fee, and books exactly the fee as protocol revenue; a fee larger than the seizure is refused, and ordinary withdrawals never pay a fee.",
  ["inputs"],"all pool states, seized amounts and fees",
  [("process_liquidation_fee, withdraw",f"{PUTIL}:1")])
P("C09","Pool flash loans come back with the fee or not at all",
  "A flash loan succeeds only if the borrower returns, in the borrowed token and in the same call, at least the loan plus the fee; everything beyond the loan becomes protocol revenue. Otherwise the pool's funds and books are unchanged, whatever the borrower contract does.",
  ["inputs","programs"],"all pool states, loan sizes, fees and repaid amounts; borrowers that pay, underpay, pay the wrong token, pay twice or re-enter",
  [("flash_loan",f"{POOL}:1"),("validate_flash_repayment",f"{PUTIL}:1")])
P("C10","Strategy borrowing charges its fee and owes the full amount",
  "Opening a leveraged strategy pays out the borrowed amount less the fee, records the full amount as debt, and books exactly the fee as protocol revenue; it needs cash for the whole amount.",
  ["inputs"],"all pool states, amounts and fees",
  [("create_strategy",f"{POOL}:1")])
P("C11","Bad debt is borne by depositors once and in full",
  "Writing off a debt removes it from the pool's debt and lowers what every deposit is worth by the same proportion, so that total deposits fall by the written-off value or to nothing. Seizing dust collateral moves it to protocol revenue without changing anyone's value.",
  ["inputs","histories"],"all pool states and written-off positions",
  [("seize_position",f"{POOL}:1"),("apply_bad_debt_to_supply_index",f"{PUTIL}:1")])
P("C12","Revenue claims pay the owner only what the protocol earned",
  "Claiming revenue pays the owner the smaller of the accumulated revenue and the available cash, and reduces the revenue and total supply by exactly the shares paid; external rewards raise every deposit's value in proportion and by no more than was paid in.",
  ["inputs"],"all pool states and reward amounts",
  [("claim_revenue / add_rewards",f"{POOL}:1")])
P("C13","Every pool operation first accrues interest to the present",
  "Any operation executed after time has passed has exactly the effect of first updating the pool and then executing the operation at that instant; a parameter change never alters interest already due.",
  ["inputs","histories"],"all pool states, operations, elapsed times and amounts",
  [("global_sync at the start of each endpoint",f"{POOL}:1"),("update_params","liquidity_layer/src/lib.rs:1")])
P("C14","A pool's totals always equal the sum of its positions",
  "No sequence of operations separates a pool's total supply from deposits plus protocol revenue, or its total debt from the sum of debts; no operation makes value appear, a balance negative, or changes anything when it is refused.",
  ["inputs","histories"],"inductively: from every consistent pool state, one arbitrary operation",
  [("all mutating endpoints",f"{POOL}:1"),("Cache write-back",f"{PCACHE}:1")])
P("C15","Pools obey only the controller, one asset and sound parameters",
  "Only the owning controller can operate a pool; payments or positions in another asset are refused; a pool is created, and its interest parameters changed, exactly when the curve is consistent, and a new pool starts empty at unit indexes.",
  ["inputs","configurations"],"all operations, amounts and parameter values",
  [("only_owner endpoints, get_payment_amount",f"{POOL}:1"),("init / update_params","liquidity_layer/src/lib.rs:1")])

CTRL="controller/src"
CUNIT="The controller has no stable test at all (its scenario tests use fixed accounts, prices and amounts), so no test settles what happens for other positions, prices or payments"
def Q(id,title,statement,over,quant,mech,why=None): P(id,title,statement,over,quant,mech,why or CUNIT+".")

Q("C20","Borrowing never exceeds the LTV-weighted collateral",
  "A borrow succeeds only if the value of all the account's debts, including the new ones, stays within its LTV-weighted collateral at current prices and indexes. The borrower receives exactly the borrowed amount, the account owes exactly what the pool books, and its other positions are unchanged.",
  ["inputs","histories"],"all prices, indexes, positions, LTVs and amounts; single and bulk borrows, with none, the same or other debts held",
  [("borrow, validate_ltv_collateral",f"{CTRL}/positions/borrow.rs:1"),("validate_borrow_collateral",f"{CTRL}/positions/borrow.rs:1")])
Q("C21","A withdrawal never leaves an indebted account unhealthy",
  "A withdrawal pays the smaller of the request and the deposit. If the account still has debt, its health factor must be at least one afterwards, or nothing moves. The deposit is removed exactly when used up, and the account and its NFT disappear exactly when no position is left.",
  ["inputs","histories"],"all prices, indexes, positions, thresholds and amounts; one or two withdrawals, none, one or two debts",
  [("withdraw, process_withdrawal",f"{CTRL}/positions/withdraw.rs:1"),("validate_is_healthy",f"{CTRL}/utils.rs:1")])
Q("C22","Supply and borrow caps bound the pool's totals",
  "After any successful deposit or loan in a market with a cap, the market's total deposits or debt, valued at current indexes, are within the cap, also when several payments or loans of one call hit the same market. A deposit takes exactly the payment and credits exactly what the pool books.",
  ["inputs"],"all caps, totals, indexes and amounts",
  [("validate_supply_cap",f"{CTRL}/positions/supply.rs:1"),("validate_borrow_cap",f"{CTRL}/positions/borrow.rs:1")])
Q("C23","Isolated collateral stands alone and within its debt ceiling",
  "An isolated account holds exactly its one isolated collateral, and isolated collateral never enters another account. Such an account borrows only tokens enabled for isolation; each loan adds its USD value to the collateral's tracker, which must stay within the ceiling, and each repayment releases the value repaid. Other loans do not touch trackers.",
  ["inputs","configurations"],"all flags, ceilings, tracked debts, prices and amounts",
  [("handle_isolated_debt, validate_borrow_asset",f"{CTRL}/positions/borrow.rs:1"),("adjust_isolated_debt_usd",f"{CTRL}/utils.rs:1"),("validate_isolated_collateral",f"{CTRL}/positions/supply.rs:1")])
Q("C24","A siloed debt is an account's only debt",
  "An account that owes a siloed token owes nothing else: a siloed token cannot be borrowed beside another debt nor another token beside a siloed debt, in any order, also within one call.",
  ["inputs","configurations","histories"],"all combinations of siloed flags, held debts and loans of a call",
  [("validate_borrow_asset",f"{CTRL}/positions/borrow.rs:1")])
Q("C25","E-mode parameters apply exactly to members of a live category",
  "An account in an e-mode category takes only assets that belong to the category and are enabled in it, none once the category is deprecated, and its deposits carry the category's LTV and bonus; an account outside e-mode uses the asset's own settings. Isolated accounts and assets are never in e-mode.",
  ["inputs","configurations"],"all categories, memberships, flags and account kinds",
  [("e-mode checks",f"{CTRL}/positions/emode.rs:1"),("supply / borrow",f"{CTRL}/positions/supply.rs:1")])
Q("C26","Accounts never hold more positions than the limits",
  "No call leaves an account with more deposit or debt positions than the configured limits, also when one call opens several; topping up an existing position is not counted.",
  ["inputs","configurations"],"all limits and numbers of held and new positions within the bounds",
  [("validate_bulk_position_limits",f"{CTRL}/validation.rs:1")])
Q("C27","Only unhealthy accounts can be liquidated",
  "The health factor is the liquidation-threshold-weighted collateral over the debt, both at current prices and accrued indexes; an account at or above one can never be liquidated, whatever is paid. The account views report exactly the values these decisions use.",
  ["inputs"],"all prices, indexes, positions, thresholds and payments",
  [("compute_health_factor",f"{CTRL}/helpers/mod.rs:1"),("liquidate",f"{CTRL}/positions/liquidation.rs:1"),("views",f"{CTRL}/views.rs:1")])
Q("C28","A liquidator pays what is repaid and seizes at most 15 percent more",
  "Each debt falls by exactly the payment kept, never more than the debt or the offer; excess is refunded. The seized collateral is worth at least the repayment and at most 15 percent more, taken from all deposits in proportion, the protocol's fee coming only out of the bonus. Liquidation stops at the target health, a payment of value is taken, and nothing is seized for nothing.",
  ["inputs"],"every payment against accounts in each recovery tier, one or two collaterals, debts and payments",
  [("execute_liquidation, calculate_repayment_amounts, calculate_seized_collateral",f"{CTRL}/positions/liquidation.rs:1"),("calculate_linear_bonus, estimate_liquidation_amount",f"{CTRL}/helpers/mod.rs:1")])
Q("C29","Unhealthy accounts can always be liquidated, as estimated",
  "While pools hold the collateral, an account below health one that has collateral can be liquidated at any price: a payment covering the debt is never refused, however far prices have moved, nor are smaller payments of value towards one or several debts. The estimation view announces exactly what executing the same liquidation then seizes, charges, refunds and repays.",
  ["inputs"],"all prices of collateral or debt below health one of several accounts, all payments for the estimates",
  [("execute_liquidation",f"{CTRL}/positions/liquidation.rs:1"),("simulate_liquidation, estimate_liquidation_amount",f"{CTRL}/helpers/mod.rs:1"),("liquidationEstimations",f"{CTRL}/views.rs:1")])
Q("C30","Bad debt is cleaned only from insolvent dust accounts, in full",
  "An account can be cleaned, by anyone, exactly when its debt exceeds its collateral and the collateral is worth at most five dollars. All its positions are then written off, the remaining collateral becomes revenue, the loss falls on depositors of the debt's pools, isolated debt is released and the account is closed; nothing is paid out.",
  ["inputs"],"all prices, indexes and positions of accounts with one or two collaterals",
  [("clean_bad_debt_standalone, perform_bad_debt_cleanup",f"{CTRL}/positions/liquidation.rs:1")])
Q("C31","Only the account's NFT holder can spend from it",
  "Borrowing, withdrawing, adding collateral and every strategy need the account's NFT, with its genuine number and recorded attributes; without it the call fails. Whatever a stranger may do (repay, liquidate, update) never shrinks a healthy account's deposits, grows its debts or moves its NFT. Account numbers are fresh, and a closed account is gone for good.",
  ["inputs","programs"],"all operations, callers, NFTs and amounts",
  [("require_active_account / validate_account",f"{CTRL}/positions/account.rs:1"),("create_account_nft",f"{CTRL}/positions/account.rs:1"),("manage_account_after_withdrawal",f"{CTRL}/positions/withdraw.rs:1")])
Q("C32","Pausing and a running flash loan lock every user operation",
  "While the protocol is paused, and after every upgrade until it is unpaused, no user operation goes through; only the owner can pause and resume. While a flash loan or strategy is running, no position-changing operation can be entered from any contract called in between. The lock never outlives its transaction.",
  ["inputs","schedules"],"every user operation, directly and re-entered from the flash-loan borrower or the swap router",
  [("require_not_paused, upgrade","controller/src/lib.rs:1"),("reentrancy_guard",f"{CTRL}/validation.rs:1")])
Q("C33","Flash loans return with the fee, for enabled assets only",
  "A flash loan is granted only for an enabled asset, a positive amount within the cash, and an ordinary endpoint of a contract; the borrower is called once with its arguments and the amount. The pool ends with at least its cash plus the fee, everything extra being revenue, or nothing changes. Depositors and debtors are unaffected, whatever the borrower does inside.",
  ["inputs","programs"],"all amounts, fees, repayments and pool states; borrowers that repay, underpay or claim revenue inside",
  [("flash_loan","controller/src/lib.rs:1"),("flash_loan","liquidity_layer/src/liquidity.rs:1")])
Q("C34","Repaying takes at most the debt and only reduces it",
  "Anyone can repay any account's debt. The payer spends the smaller of the payment and the debt, the excess comes back, the account's debt falls by exactly what the pool books, and a fully repaid debt is removed. A payment for a debt the account does not have is refused. Nothing else of the account changes.",
  ["inputs"],"all debts, prices, indexes and payments",
  [("process_repayment",f"{CTRL}/positions/repay.rs:1")])
Q("C35","Anyone may refresh an account's parameters, never endangering it",
  "Updating an account to current settings sets only the named asset's LTV, bonus and fee, or only its liquidation threshold, to the asset's (or live e-mode category's) current values. Threshold updates are refused unless an indebted account keeps a health factor of 1.05. Amounts and ownership never change.",
  ["inputs","configurations"],"all old and new settings, prices and positions; called by a stranger",
  [("update_position_threshold",f"{CTRL}/positions/supply.rs:1")])
Q("C36","Leveraged strategies end healthy and keep nobody's money",
  "Each strategy ends with a healthy account, every token accounted for: the loan is owed in full, its fee is revenue, swap proceeds are deposited or repay debt, the rest returns to the user, and the controller keeps nothing. The same caps, isolation, silo, e-mode and limits apply as for plain operations. A failed strategy takes nothing, whatever the swap returns.",
  ["inputs","programs"],"all amounts and swap results of the four strategies, over account modes and asset flags",
  [("multiply, swap_debt, swap_collateral, repay_debt_with_collateral",f"{CTRL}/strategy.rs:1"),("process_deposit",f"{CTRL}/positions/supply.rs:1")])
Q("C37","Only the owner administers the protocol",
  "Every administrative endpoint of the controller, every endpoint of a pool (whose owner is the controller) and the administration of the price aggregator are refused to everybody but the contract's owner: account holders, pools, routers, the accumulator, the aggregator or the contracts themselves; a refused call leaves every stored value as it was.",
  ["inputs","configurations"],"all administrative endpoints, callers and numeric arguments",
  [("create_liquidity_pool, add_reward",f"{CTRL}/router.rs:1"),("set_token_oracle, edit_asset_config",f"{CTRL}/config.rs:1"),("pool endpoints",f"{POOL}:1")])
Q("C38","Configuration is validated and stored exactly as given",
  "A market is created once, with the settings given and only with a consistent curve and threshold above LTV, and then works: its isolated-debt tracker is exact from the first loan. Edits, e-mode administration, oracle records, tolerances, addresses, limits and curve changes are accepted exactly when valid, store exactly what was given, and touch nothing else; upgrades keep all state.",
  ["inputs","configurations","histories"],"all settings, flags and e-mode administration histories within the bounds",
  [("create_liquidity_pool",f"{CTRL}/router.rs:1"),("edit_asset_config, set_token_oracle, e-mode endpoints",f"{CTRL}/config.rs:1"),("validate_and_calculate_tolerances",f"{CTRL}/helpers/mod.rs:1"),("adjust_isolated_debt_usd",f"{CTRL}/utils.rs:1")])
Q("C39","Claimed revenue reaches the accumulator, rewards the depositors",
  "Anyone may trigger revenue claims and accrual through the controller: the revenue of exactly the markets named goes to the accumulator, as far as there is cash, and to nobody else; accrual only raises indexes. Rewards paid by the owner reach the pool in full and raise deposits in proportion. The controller keeps nothing.",
  ["inputs"],"all revenues, supplies, cash and reward amounts of two markets",
  [("claim_revenue, add_reward",f"{CTRL}/router.rs:1"),("update_indexes",f"{CTRL}/lib.rs:1")])
Q("C40","Prices follow the two-source rule and its tolerances",
  "An asset's price is the exchange average while it is within the first tolerance of the feed, the mean of both within the second, and beyond it usable only for harmless operations. Single-source assets use that source. All prices are in EGLD at 18 decimals, exact up to half-up rounding whatever the feed's or token's decimals. Price views show these values.",
  ["inputs","configurations"],"all prices, tolerances and decimals; direct and chained quotes",
  [("calculate_final_price, token_price",f"{CTRL}/oracle/mod.rs:1"),("price views",f"{CTRL}/views.rs:1")])
Q("C41","Risky operations stop while price sources disagree",
  "Borrowing, withdrawing with debt, liquidating, cleaning and every strategy go through only while each price they rely on has its two sources within the second tolerance; supplying, repaying and withdrawing without debt are never blocked by it.",
  ["inputs"],"all prices of both sources, every operation, the token as collateral or debt, also as the base of a derived token",
  [("calculate_final_price",f"{CTRL}/oracle/mod.rs:1")])
Q("C42","LP tokens are priced by fair reserves, not spot reserves",
  "A liquidity token's price is the value of the reserves at fair external prices, per token of supply. No trade that keeps the reserve product, however large, changes it. Two values, from exchange and from feed prices of its tokens, must agree as for any asset, or risky operations are refused.",
  ["inputs"],"all reserves, supplies and prices; every trade size",
  [("safe_lp_price, off_chain_lp_price, lp_price",f"{CTRL}/oracle/mod.rs:1")])
Q("C43","Stale, missing or switched-off prices are never used",
  "No operation that relies on a price goes through when the asset has no oracle, its exchange pair is inactive, its feed is paused, has no round, or its round is as old as the configured age or older; any younger round is used. The same holds for the EGLD price behind every USD feed.",
  ["inputs","configurations"],"every risky operation under every such situation, any amount",
  [("aggregator_price_feed",f"{CTRL}/oracle/mod.rs:1")])
Q("C44","Staking tokens are priced by their exchange rate",
  "A derived token's price is its staking contract's exchange rate times the price of the token it stands for (EGLD, or the base token's own two-source price).",
  ["inputs"],"all exchange rates and base prices",
  [("derived_price",f"{CTRL}/oracle/mod.rs:1")])
Q("C45","What the rules allow goes through",
  "A supply, borrow, withdrawal, repayment, flash loan or strategy is refused only for a stated reason: not enough free collateral, cash or cap, no such debt, position limits, isolation, silo or e-mode rules, or an asset switched off for it. Whatever passes these rules, to the last unit, goes through; nobody else's account, and no unrelated market, can block it.",
  ["inputs","configurations"],"all amounts, positions and limits of accounts with up to three positions per side",
  [("borrow, supply, withdraw, repay, flash_loan",f"{CTRL}/lib.rs:1"),("validate_ltv_collateral, validate_borrow_asset, handle_isolated_debt, validate_borrow_cap",f"{CTRL}/positions/borrow.rs:1"),("validate_supply_cap, validate_isolated_collateral",f"{CTRL}/positions/supply.rs:1"),("e-mode rules",f"{CTRL}/positions/emode.rs:1")])
Q("C46","Accounts and markets keep one set of books",
  "Across every controller transaction, a market's supply net of revenue changes by exactly what the accounts' deposits in it do, and its debt by exactly what their debts do. No position is kept empty or outside a living account; an account exists exactly while listed, with one NFT that tells its attributes when made; the controller keeps no tokens.",
  ["inputs","histories"],"every operation of the controller, on accounts with up to four positions in up to three markets, every amount, price, index and position",
  [("deposit and debt positions",f"{CTRL}/positions/update.rs:1"),("account creation and closing",f"{CTRL}/positions/account.rs:1"),("supply, borrow, withdraw, repay, liquidate",f"{CTRL}/lib.rs:1"),("strategies",f"{CTRL}/strategy.rs:1"),("pool accounting","liquidity_layer/src/liquidity.rs:1")])
Q("C47","The event log tells what happened",
  "After every transaction the last logged entry of a market, position, isolated debt, asset configuration, oracle, rate curve, e-mode category or member equals what is stored, and none of these changes without an entry. Market entries give the pool's cash after the operation; supplies, borrows, withdrawals and repayments log the amounts moved, entries name account, actor, attributes and price.",
  ["inputs","histories"],"every operation and configuration change of the controller, every amount, price, index and position",
  [("controller events","common/events/src/events.rs:1"),("update_market_state after each operation","liquidity_layer/src/liquidity.rs:1"),("update_or_remove_position",f"{CTRL}/positions/update.rs:1"),("update_debt_ceiling",f"{CTRL}/positions/borrow.rs:1"),("configuration events",f"{CTRL}/config.rs:1")],
  "Unit tests read no events.")
Q("C48","What the views tell is what operations then do",
  "A pool's views give its cash, the present worth of its deposits, debts and revenue, its indexes and the time since accrual. Whenever asked, the amounts, totals, health and indexes shown by the controller's views include all interest to date: repaying or withdrawing everything next moves exactly the amount shown, and refreshing indexes stores those shown and changes no view. Asking changes nothing.",
  ["inputs","histories"],"all pool states, positions of any size, read at any of several times after the last accrual",
  [("pool views","liquidity_layer/src/view.rs:1"),("controller views",f"{CTRL}/views.rs:1"),("cached_market_index",f"{CTRL}/cache/mod.rs:102"),("update_asset_index",f"{CTRL}/oracle/mod.rs:139"),("getters",f"{CTRL}/storage/mod.rs:1")])
Q("C49","What goes in comes out, and a repaid loan leaves no trace",
  "Whatever steps lie between, once every debt is repaid all depositors can withdraw everything: without elapsed time each gets back what was put in, to a unit; with time at least that, and no more than debtors and rewards paid. The emptied market holds only protocol revenue, covered by cash with nothing stuck, and no account remains. After repayment in full, a further loan is granted exactly if it would have been without the first.",
  ["inputs","histories"],"all amounts, over sequences of up to nine transactions of two users",
  [("supply, borrow, withdraw, repay, flash_loan",f"{CTRL}/lib.rs:1"),("pool accounting","liquidity_layer/src/liquidity.rs:1"),("adjust_isolated_debt_usd",f"{CTRL}/utils.rs:302"),("position removal",f"{CTRL}/positions/update.rs:1")])
AGG="price_aggregator/src"
AUNIT="The aggregator's own tests submit a handful of fixed prices at fixed times and are not among the stable ones"
Q("C50","An aggregated price is the median of a quorum of fresh submissions",
  "A price appears exactly when as many different oracles as required have submitted for that pair within one round; it is their median (floored mean of the middle two), stamped with the present, numbered consecutively, and stands until the next round completes. Submissions from the future or over 30 seconds old, second submissions and rounds over 30 minutes count for nothing; pairs never mix.",
  ["inputs","histories"],"all prices and orders, histories of submissions and delays within the bounds",
  [("submit, submit_batch",f"{AGG}/lib.rs:1"),("submit_unchecked, create_new_round",f"{AGG}/utils.rs:1"),("calculate",f"{AGG}/median.rs:1"),("latest_price_feed",f"{AGG}/views.rs:1")],AUNIT+".")
Q("C51","Only current oracles submit, and the quorum can always be met",
  "Only oracles added and not since removed may submit, and only while the aggregator runs; new or upgraded aggregators are paused, and while paused nothing is accepted or served, and prices survive. Construction, removal and reconfiguration are accepted exactly when the quorum is between one and the number of oracles and at most fifty.",
  ["inputs","configurations","histories"],"all administrative histories within the bounds, all callers and prices",
  [("add_oracles, remove_oracles, set_submission_count",f"{AGG}/admin.rs:1"),("require_is_oracle",f"{AGG}/utils.rs:1")],AUNIT+".")
