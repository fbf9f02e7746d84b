package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	optypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	rstypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rwtypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	svtypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// Rels is a state as relations (see Out in Milkyway.tla): exact tuples, and
// numeric relations that are compared up to rounding.
type Rels struct {
	set map[string]map[string]bool
	num map[string]map[string]float64
}

func newRels() *Rels {
	return &Rels{set: map[string]map[string]bool{}, num: map[string]map[string]float64{}}
}
func (r *Rels) add(rel string, xs ...interface{}) {
	m := r.set[rel]
	if m == nil {
		m = map[string]bool{}
		r.set[rel] = m
	}
	m[tup(xs...)] = true
}
func (r *Rels) addNum(rel string, v float64, xs ...interface{}) {
	m := r.num[rel]
	if m == nil {
		m = map[string]float64{}
		r.num[rel] = m
	}
	m[tup(xs...)] += v
}

func tup(xs ...interface{}) string {
	var b strings.Builder
	for i, x := range xs {
		if i > 0 {
			b.WriteByte('|')
		}
		switch v := x.(type) {
		case string:
			b.WriteString(v)
		case bool:
			b.WriteString(strconv.FormatBool(v))
		case float64:
			b.WriteString(strconv.FormatInt(int64(v), 10))
		case int64:
			b.WriteString(strconv.FormatInt(v, 10))
		case json.Number:
			b.WriteString(v.String())
		default:
			fmt.Fprint(&b, v)
		}
	}
	return b.String()
}

// Diff is one difference between the specified and the real state.
type Diff struct {
	Rel  string `json:"rel"`
	Side string `json:"side"` // "missing" in the real state, "extra" there, or "value"
	Item string `json:"item"`
}

func diff(spec, real *Rels, tol float64) (ds []Diff) {
	for rel, m := range spec.set {
		for k := range m {
			if !real.set[rel][k] {
				ds = append(ds, Diff{rel, "missing", k})
			}
		}
	}
	for rel, m := range real.set {
		for k := range m {
			if !spec.set[rel][k] {
				ds = append(ds, Diff{rel, "extra", k})
			}
		}
	}
	rels := map[string]bool{}
	for rel := range spec.num {
		rels[rel] = true
	}
	for rel := range real.num {
		rels[rel] = true
	}
	for rel := range rels {
		ks := map[string]bool{}
		for k := range spec.num[rel] {
			ks[k] = true
		}
		for k := range real.num[rel] {
			ks[k] = true
		}
		for k := range ks {
			a, b := spec.num[rel][k], real.num[rel][k]
			if a-b > tol || b-a > tol {
				ds = append(ds, Diff{rel, "value", fmt.Sprintf("%s: specified %.6g, real %.6g", k, a, b)})
			}
		}
	}
	sort.Slice(ds, func(i, j int) bool {
		return tup(ds[i].Rel, ds[i].Side, ds[i].Item) < tup(ds[j].Rel, ds[j].Side, ds[j].Item)
	})
	return
}

// balances of reward denoms form a relation of their own
func (w *World) balRel(denom string) string {
	if w.rwd[denom] {
		return "rbal"
	}
	return "bal"
}

func (w *World) fuzzyBal(acct, denom string) bool {
	return w.rwd[denom] && !strings.HasPrefix(acct, "plan") && acct != "community"
}

// fromSpec converts Out(s) as written by TLC.
func (w *World) fromSpec(o map[string][][]interface{}) *Rels {
	r := newRels()
	for rel, ts := range o {
		for _, t := range ts {
			n := len(t)
			switch {
			case rel == "ent" || rel == "com":
				r.addNum(rel, float64(num(t[n-1])), t[:n-1]...)
			case rel == "bal" && w.fuzzyBal(t[0].(string), t[1].(string)):
				r.addNum("rbal", float64(num(t[n-1])), t[:n-1]...)
			case rel == "bal":
				r.add(w.balRel(t[1].(string)), t...)
			default:
				r.add(rel, t...)
			}
		}
	}
	return r
}

func (w *World) amt(x math.Int) string {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(x.BigInt(), w.cfg.scale.BigInt(), m)
	if m.Sign() == 0 {
		return q.String()
	}
	return q.String() + "+" + m.String() + "/" + w.cfg.scale.String()
}
func (w *World) amtOf(c sdk.Coin) string {
	if w.rwd[w.spec[c.Denom]] {
		return w.amt(c.Amount.MulRaw(w.cfg.Frac))
	}
	return w.amt(c.Amount)
}
func (w *World) decAmt(x math.LegacyDec) string {
	if x.IsInteger() {
		return w.amt(x.TruncateInt())
	}
	return x.String() + "/" + w.cfg.scale.String()
}
func (w *World) fl(x math.LegacyDec) float64 {
	f, err := x.MulInt64(w.cfg.Frac).QuoInt(w.cfg.scale).Float64()
	must(err)
	return f
}
func (w *World) nm(addr string) string {
	if n, ok := w.name[addr]; ok {
		return n
	}
	return "?" + addr
}
func (w *World) dn(d string) string {
	if n, ok := w.spec[d]; ok {
		return n
	}
	return "?" + d
}
func (w *World) tm(t time.Time) interface{} {
	d := t.Sub(genesisTime)
	if d%w.cfg.unit == 0 {
		return int64(d / w.cfg.unit)
	}
	return t.String()
}
func (w *World) du(d time.Duration) interface{} {
	if d%w.cfg.unit == 0 {
		return int64(d / w.cfg.unit)
	}
	return d.String()
}
func tname(t rstypes.DelegationType, id uint32) string {
	switch t {
	case rstypes.DELEGATION_TYPE_POOL:
		return fmt.Sprintf("P%d", id)
	case rstypes.DELEGATION_TYPE_OPERATOR:
		return fmt.Sprintf("O%d", id)
	case rstypes.DELEGATION_TYPE_SERVICE:
		return fmt.Sprintf("S%d", id)
	}
	return fmt.Sprintf("?%d", id)
}

// bare strips the "<kind>/<id>/" with which the denoms of shares start.
func bare(d string) string {
	if p := strings.SplitN(d, "/", 3); len(p) == 3 && (p[0] == "pool" || p[0] == "operator" || p[0] == "service") {
		return p[2]
	}
	return d
}

func (w *World) project(s Sim) (r *Rels, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("reading the state panicked: %v", x)
		}
	}()
	r = newRels()
	ctx, _ := s.ctx.CacheContext() // reading may touch sequences
	app := w.app
	r.add("now", s.now)

	// bank
	app.BankKeeper.IterateAllBalances(ctx, func(addr sdk.AccAddress, c sdk.Coin) bool {
		d, known := w.spec[c.Denom]
		if !known {
			if strings.HasPrefix(c.Denom, "locked/") {
				r.add("bad", "unknown locked denom", c.Denom)
			}
			return false
		}
		n := w.nm(addr.String())
		if w.fuzzyBal(n, d) {
			r.addNum("rbal", w.fl(math.LegacyNewDecFromInt(c.Amount)), n, d)
		} else {
			r.add(w.balRel(d), n, d, w.amtOf(c))
		}
		return false
	})
	for real, d := range w.spec {
		if c := app.BankKeeper.GetSupply(ctx, real); c.IsPositive() {
			r.add("sup", d, w.amtOf(c))
		}
	}

	// operators
	og := app.OperatorsKeeper.ExportGenesis(ctx)
	tk := func(t string, tokens sdk.Coins, shares sdk.DecCoins) {
		by := map[string]math.LegacyDec{}
		for _, c := range shares {
			by[bare(c.Denom)] = c.Amount
		}
		for _, c := range tokens {
			r.add("tk", t, w.dn(c.Denom), w.amt(c.Amount))
			if x, ok := by[c.Denom]; !ok || !x.Equal(math.LegacyNewDecFromInt(c.Amount)) {
				r.add("bad", "shares differ from tokens", t, c.Denom, shares.String(), tokens.String())
			}
		}
		if len(shares) != len(tokens) {
			r.add("bad", "shares differ from tokens", t, shares.String(), tokens.String())
		}
	}
	check := func(t string, addr string) {
		if w.addr[t] != addr {
			r.add("bad", "address of target", t, addr)
		}
	}
	st := map[optypes.OperatorStatus]string{optypes.OPERATOR_STATUS_ACTIVE: "A", optypes.OPERATOR_STATUS_INACTIVATING: "I", optypes.OPERATOR_STATUS_INACTIVE: "X"}
	ops := map[uint32]bool{}
	for _, o := range og.Operators {
		ops[o.ID] = true
		nm := o.Moniker
		if o.Website != "w-"+nm || o.PictureURL != "p-"+nm {
			nm += "!" + o.Website + "!" + o.PictureURL
		}
		r.add("ops", o.ID, st[o.Status], w.nm(o.Admin), nm)
		t := fmt.Sprintf("O%d", o.ID)
		tk(t, o.Tokens, o.DelegatorShares)
		check(t, o.Address)
	}
	for _, u := range og.UnbondingOperators {
		r.add("till", u.OperatorID, w.tm(u.UnbondingCompletionTime))
	}
	for _, p := range og.OperatorsParams {
		r.add("oppar", p.OperatorID, p.Params.CommissionRate.MulInt64(100).TruncateInt64())
		if !p.Params.CommissionRate.MulInt64(100).IsInteger() {
			r.add("bad", "commission rate", p.OperatorID, p.Params.CommissionRate.String())
		}
	}
	r.add("next", "op", og.NextOperatorID)
	r.add("par", "deact", w.du(og.Params.DeactivationTime))
	for _, c := range og.Params.OperatorRegistrationFee {
		r.add("pfee", "op", w.dn(c.Denom), w.amt(c.Amount))
	}

	// services
	sg := app.ServicesKeeper.ExportGenesis(ctx)
	sst := map[svtypes.ServiceStatus]string{svtypes.SERVICE_STATUS_CREATED: "C", svtypes.SERVICE_STATUS_ACTIVE: "A", svtypes.SERVICE_STATUS_INACTIVE: "X"}
	svs := map[uint32]bool{}
	for _, o := range sg.Services {
		svs[o.ID] = true
		nm := o.Name
		if o.Website != "w-"+nm || o.PictureURL != "p-"+nm || o.Description != "d-"+nm {
			nm += "!" + o.Website + "!" + o.PictureURL + "!" + o.Description
		}
		r.add("svs", o.ID, sst[o.Status], w.nm(o.Admin), nm)
		if o.Accredited {
			r.add("acc", o.ID)
		}
		t := fmt.Sprintf("S%d", o.ID)
		tk(t, o.Tokens, o.DelegatorShares)
		check(t, o.Address)
	}
	for _, p := range sg.ServicesParams {
		for _, d := range p.Params.AllowedDenoms {
			r.add("svden", p.ServiceID, w.dn(d))
		}
		if !svs[p.ServiceID] {
			r.add("bad", "params of a service that does not exist", p.ServiceID)
		}
	}
	r.add("next", "svc", sg.NextServiceID)
	for _, c := range sg.Params.ServiceRegistrationFee {
		r.add("pfee", "svc", w.dn(c.Denom), w.amt(c.Amount))
	}

	// pools
	pg := app.PoolsKeeper.ExportGenesis(ctx)
	pls := map[uint32]bool{}
	for _, p := range pg.Pools {
		pls[p.ID] = true
		r.add("pls", p.ID, w.dn(p.Denom))
		t := fmt.Sprintf("P%d", p.ID)
		if p.Tokens.IsPositive() {
			r.add("tk", t, w.dn(p.Denom), w.amt(p.Tokens))
		}
		if !p.DelegatorShares.Equal(math.LegacyNewDecFromInt(p.Tokens)) {
			r.add("bad", "shares differ from tokens", t, p.DelegatorShares.String(), p.Tokens.String())
		}
		check(t, p.Address)
	}
	r.add("next", "pool", pg.NextPoolID)

	// which addresses are known as targets
	for i := uint32(1); i <= 12; i++ {
		for _, x := range []struct {
			t  string
			ok bool
			f  func() (bool, error)
		}{
			{fmt.Sprintf("O%d", i), ops[i], func() (bool, error) { return app.OperatorsKeeper.IsOperatorAddress(ctx, w.addr[fmt.Sprintf("O%d", i)]) }},
			{fmt.Sprintf("S%d", i), svs[i], func() (bool, error) { return app.ServicesKeeper.IsServiceAddress(ctx, w.addr[fmt.Sprintf("S%d", i)]) }},
			{fmt.Sprintf("P%d", i), pls[i], func() (bool, error) { return app.PoolsKeeper.IsPoolAddress(ctx, w.addr[fmt.Sprintf("P%d", i)]) }},
		} {
			is, err := x.f()
			must(err)
			if is != x.ok {
				r.add("bad", "target address registered", x.t, is)
			}
		}
		if i >= og.NextOperatorID && i >= sg.NextServiceID && i >= pg.NextPoolID {
			break
		}
	}

	// restaking
	rg := app.RestakingKeeper.ExportGenesis(ctx)
	dels := map[string]bool{}
	for _, d := range rg.Delegations {
		t := tname(d.Type, d.TargetID)
		dels[w.nm(d.UserAddress)+"|"+t] = true
		for _, c := range d.Shares {
			r.add("del", w.nm(d.UserAddress), t, w.dn(bare(c.Denom)), w.decAmt(c.Amount))
		}
		if d.Shares.IsZero() {
			r.add("bad", "empty delegation", w.nm(d.UserAddress), t)
		}
	}
	ub := map[string]math.Int{}
	uids := map[uint64]bool{}
	for _, d := range rg.UnbondingDelegations {
		for _, e := range d.Entries {
			for _, c := range e.Balance {
				k := tup(w.nm(d.DelegatorAddress), tname(d.Type, d.TargetID), w.tm(e.CompletionTime), w.dn(c.Denom))
				if old, ok := ub[k]; ok {
					ub[k] = old.Add(c.Amount)
				} else {
					ub[k] = c.Amount
				}
			}
			if e.Balance.IsZero() {
				r.add("bad", "empty unbonding entry", w.nm(d.DelegatorAddress))
			}
			if !e.InitialBalance.Equal(e.Balance) {
				r.add("bad", "initial balance of unbonding entry", e.InitialBalance.String(), e.Balance.String())
			}
			if uids[e.UnbondingID] {
				r.add("bad", "unbonding id used twice", e.UnbondingID)
			}
			uids[e.UnbondingID] = true
		}
		if len(d.Entries) == 0 {
			r.add("bad", "unbonding without entries", w.nm(d.DelegatorAddress))
		}
	}
	for k, v := range ub {
		r.add("ubd", k, w.amt(v))
	}
	for _, x := range rg.OperatorsJoinedServices {
		for _, i := range x.ServiceIDs {
			r.add("join", x.OperatorID, i)
		}
	}
	for _, x := range rg.ServicesAllowedOperators {
		for _, i := range x.OperatorIDs {
			r.add("allow", x.ServiceID, i)
		}
	}
	for _, x := range rg.ServicesSecuringPools {
		for _, i := range x.PoolIDs {
			r.add("sec", x.ServiceID, i)
		}
	}
	for _, x := range rg.UsersPreferences {
		r.add("prefs", w.nm(x.UserAddress), x.Preferences.TrustNonAccreditedServices, x.Preferences.TrustAccreditedServices)
		for _, i := range x.Preferences.TrustedServicesIDs {
			r.add("pids", w.nm(x.UserAddress), i)
		}
	}
	r.add("par", "unb", w.du(rg.Params.UnbondingTime))
	for _, d := range rg.Params.AllowedDenoms {
		r.add("pset", "rden", w.dn(d))
	}

	// liquid vesting
	lg, err := app.LiquidVestingKeeper.ExportGenesis(ctx)
	must(err)
	for _, x := range lg.UserInsuranceFunds {
		for _, c := range x.Balance {
			r.add("ins", w.nm(x.UserAddress), w.dn(c.Denom), w.amt(c.Amount))
		}
	}
	bq := map[string]math.Int{}
	for _, x := range lg.BurnCoins {
		for _, c := range x.Amount {
			k := tup(w.nm(x.DelegatorAddress), w.tm(x.CompletionTime), w.dn(c.Denom))
			if old, ok := bq[k]; ok {
				bq[k] = old.Add(c.Amount)
			} else {
				bq[k] = c.Amount
			}
		}
	}
	for k, v := range bq {
		r.add("burnq", k, w.amt(v))
	}
	r.add("par", "pct", lg.Params.InsurancePercentage.String())
	if lg.Params.InsurancePercentage.IsInteger() {
		delete(r.set["par"], tup("pct", lg.Params.InsurancePercentage.String()))
		r.add("par", "pct", lg.Params.InsurancePercentage.TruncateInt64())
	}
	for _, x := range lg.Params.Minters {
		r.add("pset", "mint", w.nm(x))
	}
	for _, x := range lg.Params.Burners {
		r.add("pset", "burn", w.nm(x))
	}
	for _, x := range lg.Params.TrustedDelegates {
		r.add("pset", "trust", w.nm(x))
	}
	for _, x := range lg.Params.AllowedChannels {
		r.add("pset", "chan", x)
	}

	// rewards
	wg, err := app.RewardsKeeper.ExportGenesis(ctx)
	must(err)
	r.add("next", "plan", wg.NextRewardsPlanID)
	for _, c := range wg.Params.RewardsPlanCreationFee {
		r.add("pfee", "plan", w.dn(c.Denom), w.amtOf(c))
	}
	for _, p := range wg.RewardsPlans {
		huge := len(p.AmountPerDay) == 1 && p.AmountPerDay[0].Amount.Equal(hugeAmount)
		r.add("plans", p.ID, p.ServiceID, w.tm(p.StartTime), w.tm(p.EndTime), huge)
		if w.nm(p.RewardsPool) != fmt.Sprintf("plan%d", p.ID) {
			r.add("bad", "plan address", p.ID, p.RewardsPool)
		}
		if !huge {
			for _, c := range p.AmountPerDay {
				r.add("plamt", p.ID, w.dn(c.Denom), w.amtOf(c))
			}
		}
		for i, d := range []rwtypes.Distribution{p.PoolsDistribution, p.OperatorsDistribution} {
			k := []string{"pool", "op"}[i]
			dt, err := rwtypes.GetDistributionType(app.AppCodec(), d)
			must(err)
			ty := "?"
			switch x := dt.(type) {
			case *rwtypes.DistributionTypeBasic:
				ty = "basic"
			case *rwtypes.DistributionTypeEgalitarian:
				ty = "egal"
			case *rwtypes.DistributionTypeWeighted:
				ty = "weighted"
				for _, y := range x.Weights {
					r.add("plws", p.ID, k, y.DelegationTargetID, y.Weight)
				}
			}
			r.add("pldis", p.ID, k, ty, d.Weight)
		}
		r.add("pldis", p.ID, "user", "basic", p.UsersDistribution.Weight)
	}
	for _, x := range wg.DelegatorWithdrawInfos {
		if x.DelegatorAddress != x.WithdrawAddress {
			r.add("wd", w.nm(x.DelegatorAddress), w.nm(x.WithdrawAddress))
		}
	}
	for _, x := range wg.PoolServiceTotalDelegatorShares {
		for _, c := range x.Shares {
			den := bare(c.Denom)
			if c.Amount.IsZero() {
				continue
			}
			r.add("trust", x.PoolID, x.ServiceID, w.dn(den), w.decAmt(c.Amount))
		}
	}
	for _, x := range wg.OperatorAccumulatedCommissions {
		if !ops[x.OperatorID] {
			r.add("bad", "commission of an operator that does not exist", x.OperatorID)
		}
		for _, p := range x.Accumulated.Commissions {
			for _, c := range p.DecCoins {
				r.addNum("com", w.fl(c.Amount), x.OperatorID, w.dn(c.Denom))
			}
		}
	}
	infos := map[string]bool{}
	for _, x := range []struct {
		ty  rstypes.DelegationType
		rec rwtypes.DelegationTypeRecords
		ex  map[uint32]bool
	}{
		{rstypes.DELEGATION_TYPE_POOL, wg.PoolsRecords, pls},
		{rstypes.DELEGATION_TYPE_OPERATOR, wg.OperatorsRecords, ops},
		{rstypes.DELEGATION_TYPE_SERVICE, wg.ServicesRecords, svs},
	} {
		cur := map[uint32]bool{}
		for _, y := range x.rec.CurrentRewards {
			cur[y.DelegationTargetID] = true
		}
		for i := range x.ex {
			if !cur[i] {
				r.add("bad", "no reward record for target", tname(x.ty, i))
			}
		}
		dangling := func(i uint32, what string) {
			if !x.ex[i] {
				r.add("bad", "dangling reward record", tname(x.ty, i), what)
			}
		}
		for i := range cur {
			dangling(i, "current")
		}
		for _, y := range x.rec.OutstandingRewards {
			dangling(y.DelegationTargetID, "outstanding")
		}
		for _, y := range x.rec.HistoricalRewards {
			dangling(y.DelegationTargetID, "historical")
		}
		for _, y := range x.rec.DelegatorStartingInfos {
			dangling(y.DelegationTargetID, "starting info")
			k := w.nm(y.DelegatorAddress) + "|" + tname(x.ty, y.DelegationTargetID)
			infos[k] = true
			if !dels[k] {
				r.add("bad", "starting info without delegation", k)
			}
		}
	}
	for k := range dels {
		if !infos[k] {
			r.add("bad", "delegation without starting info", k)
		}
	}
	// what each delegator could withdraw now
	for _, d := range rg.Delegations {
		c, _ := ctx.CacheContext()
		acc, err := sdk.AccAddressFromBech32(d.UserAddress)
		must(err)
		pools, err := app.RewardsKeeper.GetDelegationRewards(c, acc, d.Type, d.TargetID)
		if err != nil {
			r.add("bad", "rewards cannot be computed", w.nm(d.UserAddress), tname(d.Type, d.TargetID), trimErr(err.Error()))
			continue
		}
		for _, p := range pools {
			for _, x := range p.DecCoins {
				r.addNum("ent", w.fl(x.Amount), w.nm(d.UserAddress), tname(d.Type, d.TargetID), w.dn(x.Denom))
			}
		}
	}

	// assets
	ag, err := app.AssetsKeeper.ExportGenesis(ctx)
	must(err)
	tix := map[string]bool{}
	for _, x := range ag.Assets {
		r.add("ast", w.dn(x.Denom), x.Ticker, x.Exponent)
		tix[x.Ticker+"|"+x.Denom] = true
	}
	must(app.AssetsKeeper.TickerIndexes.Walk(ctx, nil, func(k collections.Pair[string, string]) (bool, error) {
		if !tix[k.K1()+"|"+k.K2()] {
			r.add("bad", "stale ticker index", k.K1(), w.dn(k.K2()))
		}
		delete(tix, k.K1()+"|"+k.K2())
		return false, nil
	}))
	for k := range tix {
		r.add("bad", "missing ticker index", k)
	}
	return r, nil
}
