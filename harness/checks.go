package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"

	optypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	rstypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rwtypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

type outstandingMap = collections.Map[uint32, rwtypes.OutstandingRewards]

type codecJSON = codec.JSONCodec
type txEncCfg = client.TxEncodingConfig

// check runs an extra check on a visited state (on a branch that is thrown
// away) and returns what is wrong.
func (w *World) check(name string, s Sim, want json.RawMessage, real *Rels) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("%s: panic: %v", name, x)
		}
	}()
	switch name {
	case "exit":
		return w.checkExit(s)
	case "solvent":
		return w.checkSolvent(s)
	case "drain":
		return w.checkDrain(s, real)
	case "inv":
		return w.checkInvariants(s)
	case "damage":
		return w.checkDamage(s)
	case "query":
		return w.checkQueries(s)
	}
	fatal("unknown check %s", name)
	return ""
}

func (w *World) delegations(s Sim) []rstypes.Delegation {
	ctx, _ := s.ctx.CacheContext()
	return w.app.RestakingKeeper.ExportGenesis(ctx).Delegations
}

func sharesCoins(d rstypes.Delegation) sdk.Coins {
	cs := sdk.Coins{}
	for _, c := range d.Shares {
		cs = append(cs, sdk.NewCoin(bare(c.Denom), c.Amount.TruncateInt()))
	}
	return cs.Sort()
}

func undelegate(d rstypes.Delegation, c sdk.Coins) sdk.Msg {
	switch d.Type {
	case rstypes.DELEGATION_TYPE_POOL:
		return &rstypes.MsgUndelegatePool{Delegator: d.UserAddress, Amount: c[0]}
	case rstypes.DELEGATION_TYPE_OPERATOR:
		return &rstypes.MsgUndelegateOperator{Delegator: d.UserAddress, OperatorID: d.TargetID, Amount: c}
	}
	return &rstypes.MsgUndelegateService{Delegator: d.UserAddress, ServiceID: d.TargetID, Amount: c}
}

// checkExit: every delegator can unbond all or any part of what is staked, and
// withdraw the rewards.
func (w *World) checkExit(s Sim) string {
	for _, d := range w.delegations(s) {
		all := sharesCoins(d)
		name := w.nm(d.UserAddress) + " from " + tname(d.Type, d.TargetID)
		one := sdk.Coins{sdk.NewCoin(all[len(all)-1].Denom, math.NewInt(1))}
		for _, c := range []sdk.Coins{all, one} {
			b := s.branch()
			if o := w.run(&b, undelegate(d, c), w.nm(d.UserAddress)); !o.OK {
				return fmt.Sprintf("%s cannot unbond %s: %s%s", name, c, o.Err, o.Bad)
			}
		}
		b := s.branch()
		if o := w.run(&b, &rwtypes.MsgWithdrawDelegatorReward{DelegatorAddress: d.UserAddress, DelegationType: d.Type, DelegationTargetID: d.TargetID}, w.nm(d.UserAddress)); !o.OK {
			return fmt.Sprintf("%s cannot withdraw the rewards: %s%s", name, o.Err, o.Bad)
		}
	}
	return ""
}

// checkSolvent: everybody withdraws everything, one after the other, in both orders.
func (w *World) checkSolvent(s Sim) string {
	ds := w.delegations(s)
	for _, reverse := range []bool{false, true} {
		b := s.branch()
		if reverse {
			for i, j := 0, len(ds)-1; i < j; i, j = i+1, j-1 {
				ds[i], ds[j] = ds[j], ds[i]
			}
		} else if msg := w.takeCommissions(&b); msg != "" {
			return msg
		}
		for _, d := range ds {
			if o := w.run(&b, &rwtypes.MsgWithdrawDelegatorReward{DelegatorAddress: d.UserAddress, DelegationType: d.Type, DelegationTargetID: d.TargetID}, w.nm(d.UserAddress)); !o.OK {
				return fmt.Sprintf("%s cannot withdraw the rewards from %s: %s%s", w.nm(d.UserAddress), tname(d.Type, d.TargetID), o.Err, o.Bad)
			}
		}
		if reverse {
			if msg := w.takeCommissions(&b); msg != "" {
				return msg
			}
		}
		// what is left belongs to nobody
		rels, err := w.project(b)
		if err != nil {
			return err.Error()
		}
		for _, rel := range []string{"ent", "com"} {
			for k, v := range rels.num[rel] {
				if w.cfg.units(v) > 2 || v < 0 {
					return fmt.Sprintf("after withdrawing everything %s %s is still %g", rel, k, v)
				}
			}
		}
	}
	return ""
}

func (w *World) takeCommissions(s *Sim) string {
	ctx, _ := s.ctx.CacheContext()
	for _, o := range w.app.OperatorsKeeper.ExportGenesis(ctx).Operators {
		c, err := w.app.RewardsKeeper.GetOperatorAccumulatedCommission(ctx, o.ID)
		if err != nil {
			continue
		}
		if cs, _ := c.Commissions.Sum().TruncateDecimal(); cs.IsZero() {
			continue
		}
		if r := w.run(s, &rwtypes.MsgWithdrawOperatorCommission{Sender: o.Admin, OperatorID: o.ID}, w.nm(o.Admin)); !r.OK {
			return fmt.Sprintf("the commission of operator %d cannot be withdrawn: %s%s", o.ID, r.Err, r.Bad)
		}
	}
	return ""
}

// checkDrain: everybody unbonds everything; once that has matured everybody has
// got everything and no target holds anything for anybody.
func (w *World) checkDrain(s Sim, real *Rels) string {
	ctx, _ := s.ctx.CacheContext()
	owed := map[string]sdk.Coins{}
	var users []string
	add := func(u string, cs sdk.Coins) {
		if _, ok := owed[u]; !ok {
			users = append(users, u)
		}
		owed[u] = owed[u].Add(cs...)
	}
	ds := w.delegations(s)
	for _, d := range ds {
		add(d.UserAddress, sharesCoins(d))
	}
	far := int64(0)
	rg := w.app.RestakingKeeper.ExportGenesis(ctx)
	for _, d := range rg.UnbondingDelegations {
		for _, e := range d.Entries {
			add(d.DelegatorAddress, e.Balance)
			if t := int64(e.CompletionTime.Sub(genesisTime) / w.cfg.unit); t > far {
				far = t
			}
		}
	}
	lg, err := w.app.LiquidVestingKeeper.ExportGenesis(ctx)
	must(err)
	burn := map[string]sdk.Coins{}
	for _, x := range lg.BurnCoins {
		burn[x.DelegatorAddress] = burn[x.DelegatorAddress].Add(x.Amount...)
	}
	before := map[string]sdk.Coins{}
	for _, u := range users {
		before[u] = w.app.BankKeeper.GetAllBalances(ctx, sdk.MustAccAddressFromBech32(u))
	}
	for _, d := range ds {
		if o := w.run(&s, undelegate(d, sharesCoins(d)), w.nm(d.UserAddress)); !o.OK {
			return fmt.Sprintf("%s cannot unbond everything from %s: %s%s", w.nm(d.UserAddress), tname(d.Type, d.TargetID), o.Err, o.Bad)
		}
	}
	if t := s.now + int64(rg.Params.UnbondingTime/w.cfg.unit); t > far {
		far = t
	}
	if o := w.block(&s, far-s.now); !o.OK {
		return "block failed: " + o.Err
	}
	if o := w.block(&s, 0); !o.OK {
		return "block failed: " + o.Err
	}
	ctx, _ = s.ctx.CacheContext()
	rg = w.app.RestakingKeeper.ExportGenesis(ctx)
	if len(rg.Delegations)+len(rg.UnbondingDelegations) > 0 {
		return fmt.Sprintf("left after everybody unbonded everything: %v %v", rg.Delegations, rg.UnbondingDelegations)
	}
	for _, u := range users {
		now := w.app.BankKeeper.GetAllBalances(ctx, sdk.MustAccAddressFromBech32(u))
		for d := range w.spec {
			if w.rwd[w.spec[d]] {
				continue
			}
			exp := before[u].AmountOf(d).Add(owed[u].AmountOf(d)).Sub(burn[u].AmountOf(d))
			if !now.AmountOf(d).Equal(exp) {
				return fmt.Sprintf("%s has %s %s after unbonding everything, expected %s", w.nm(u), now.AmountOf(d), w.spec[d], exp)
			}
		}
	}
	rels, err := w.project(s)
	if err != nil {
		return err.Error()
	}
	for _, rel := range []string{"tk", "del", "ubd", "trust"} {
		for k := range rels.set[rel] {
			return fmt.Sprintf("left after everybody unbonded everything: %s %s", rel, k)
		}
	}
	return ""
}

// ---- invariants registered by the modules

func (w *World) invariants(s Sim) map[string]string {
	r := map[string]string{}
	for _, x := range w.app.CrisisKeeper.Routes() {
		if x.ModuleName == "transfer" {
			continue // wants channels that really exist
		}
		func() {
			ctx, _ := s.ctx.CacheContext()
			defer func() {
				if e := recover(); e != nil {
					r[x.ModuleName+"/"+x.Route] = fmt.Sprintf("panic: %v", e)
				}
			}()
			if msg, broken := x.Invar(ctx); broken {
				r[x.ModuleName+"/"+x.Route] = msg
			}
		}()
	}
	return r
}

func (w *World) checkInvariants(s Sim) string {
	var bad []string
	for k, m := range w.invariants(s) {
		bad = append(bad, k+": "+m)
	}
	sort.Strings(bad)
	return strings.Join(bad, "; ")
}

// A damage breaks a quantity that a registered invariant protects. It returns
// false when it is not applicable in the state.
type damage struct {
	name  string
	route string
	do    func(w *World, ctx sdk.Context) bool
}

func (w *World) takeAll(ctx sdk.Context, from string) bool {
	a := sdk.MustAccAddressFromBech32(from)
	cs := w.app.BankKeeper.GetAllBalances(ctx, a)
	if cs.IsZero() {
		return false
	}
	must(w.app.BankKeeper.SendCoins(ctx, a, userAddr("thief"), cs))
	return true
}

func (w *World) firstDel(ctx sdk.Context, t rstypes.DelegationType) (rstypes.Delegation, bool) {
	for _, d := range w.app.RestakingKeeper.ExportGenesis(ctx).Delegations {
		if d.Type == t {
			return d, true
		}
	}
	return rstypes.Delegation{}, false
}

func damages() (r []damage) {
	kinds := []struct {
		n string
		t rstypes.DelegationType
	}{{"pools", rstypes.DELEGATION_TYPE_POOL}, {"operators", rstypes.DELEGATION_TYPE_OPERATOR}, {"services", rstypes.DELEGATION_TYPE_SERVICE}}
	for _, k := range kinds {
		k := k
		r = append(r, damage{"coins of " + k.n + " taken", "restaking/accounts-balances", func(w *World, ctx sdk.Context) bool {
			some := false
			for a, n := range w.name {
				if strings.HasPrefix(n, strings.ToUpper(k.n[:1])) && len(n) <= 3 {
					w.takeAll(ctx, a)
				}
			}
			_, some = w.firstDel(ctx, k.t)
			return some
		}})
		r = append(r, damage{"empty delegation in " + k.n, "restaking/positive-" + k.n + "-delegations", func(w *World, ctx sdk.Context) bool {
			d, ok := w.firstDel(ctx, k.t)
			if ok {
				d.Shares = sdk.DecCoins{}
				must(w.app.RestakingKeeper.SetDelegation(ctx, d))
			}
			return ok
		}})
		r = append(r, damage{"negative delegation in " + k.n, "restaking/positive-" + k.n + "-delegations", func(w *World, ctx sdk.Context) bool {
			d, ok := w.firstDel(ctx, k.t)
			if ok {
				d.Shares = append(sdk.DecCoins{}, d.Shares...)
				d.Shares[0].Amount = d.Shares[0].Amount.Neg()
				must(w.app.RestakingKeeper.SetDelegation(ctx, d))
			}
			return ok
		}})
		r = append(r, damage{"larger delegation in " + k.n, "restaking/" + k.n + "-delegators-shares", func(w *World, ctx sdk.Context) bool {
			d, ok := w.firstDel(ctx, k.t)
			if ok {
				d.Shares = append(sdk.DecCoins{}, d.Shares...)
				d.Shares[0].Amount = d.Shares[0].Amount.Add(math.LegacySmallestDec())
				must(w.app.RestakingKeeper.SetDelegation(ctx, d))
			}
			return ok
		}})
		r = append(r, damage{"lost delegation in " + k.n, "restaking/" + k.n + "-delegators-shares", func(w *World, ctx sdk.Context) bool {
			d, ok := w.firstDel(ctx, k.t)
			if ok {
				must(w.app.RestakingKeeper.RemoveDelegation(ctx, d))
			}
			return ok
		}})
		r = append(r, damage{"delegation to missing one of " + k.n, "restaking/" + k.n + "-delegators-shares", func(w *World, ctx sdk.Context) bool {
			d, ok := w.firstDel(ctx, k.t)
			if ok {
				d.TargetID = 999
				must(w.app.RestakingKeeper.SetDelegation(ctx, d))
			}
			return ok
		}})
	}
	r = append(r,
		damage{"missing operator allowed", "restaking/allowed-operators-exist", func(w *World, ctx sdk.Context) bool {
			must(w.app.RestakingKeeper.AddOperatorToServiceAllowList(ctx, 1, 999))
			return true
		}},
		damage{"missing service joined", "restaking/operators-joined-services-exist", func(w *World, ctx sdk.Context) bool {
			must(w.app.RestakingKeeper.AddServiceToOperatorJoinedServices(ctx, 1, 999))
			return true
		}},
		damage{"operator id not yet given", "operators/valid-operators", func(w *World, ctx sdk.Context) bool {
			for _, o := range w.app.OperatorsKeeper.ExportGenesis(ctx).Operators {
				must(w.app.OperatorsKeeper.SetNextOperatorID(ctx, o.ID))
				return true
			}
			return false
		}},
		damage{"invalid operator", "operators/valid-operators", func(w *World, ctx sdk.Context) bool {
			for _, o := range w.app.OperatorsKeeper.ExportGenesis(ctx).Operators {
				o.Status = optypes.OPERATOR_STATUS_UNSPECIFIED
				must(w.app.OperatorsKeeper.SaveOperator(ctx, o))
				return true
			}
			return false
		}},
		damage{"service id not yet given", "services/valid-services", func(w *World, ctx sdk.Context) bool {
			for _, o := range w.app.ServicesKeeper.ExportGenesis(ctx).Services {
				must(w.app.ServicesKeeper.SetNextServiceID(ctx, o.ID))
				return true
			}
			return false
		}},
		damage{"invalid service", "services/valid-services", func(w *World, ctx sdk.Context) bool {
			for _, o := range w.app.ServicesKeeper.ExportGenesis(ctx).Services {
				o.Name = ""
				must(w.app.ServicesKeeper.SaveService(ctx, o))
				return true
			}
			return false
		}},
		damage{"pool id not yet given", "pools/valid-pools", func(w *World, ctx sdk.Context) bool {
			for _, o := range w.app.PoolsKeeper.ExportGenesis(ctx).Pools {
				must(w.app.PoolsKeeper.SetNextPoolID(ctx, o.ID))
				return true
			}
			return false
		}},
		damage{"second pool for a denom", "pools/unique-pools", func(w *World, ctx sdk.Context) bool {
			for _, o := range w.app.PoolsKeeper.ExportGenesis(ctx).Pools {
				o.ID = 998
				must(w.app.PoolsKeeper.SavePool(ctx, o))
				return true
			}
			return false
		}},
		damage{"coins of the rewards pool taken", "rewards/module-account", func(w *World, ctx sdk.Context) bool {
			due := w.outstanding(ctx)
			w.takeAll(ctx, w.addr["rwd"])
			return due
		}},
		damage{"negative outstanding rewards", "rewards/nonnegative-outstanding", func(w *World, ctx sdk.Context) bool {
			done := false
			for _, m := range w.outstandings() {
				must(m.walk(ctx, func(id uint32, x rwtypes.OutstandingRewards) {
					if done || len(x.Rewards) == 0 {
						return
					}
					ps := rwtypes.DecPools{}
					for _, p := range x.Rewards {
						cs := append(sdk.DecCoins{}, p.DecCoins...)
						cs[0].Amount = cs[0].Amount.Neg().Sub(math.LegacyOneDec())
						ps = append(ps, rwtypes.DecPool{Denom: p.Denom, DecCoins: cs})
					}
					m.set(ctx, id, rwtypes.OutstandingRewards{Rewards: ps})
					done = true
				}))
			}
			return done
		}},
		damage{"reference count", "rewards/reference-count", func(w *World, ctx sdk.Context) bool {
			d, ok := w.firstDel(ctx, rstypes.DELEGATION_TYPE_OPERATOR)
			if ok {
				must(w.app.RestakingKeeper.RemoveDelegation(ctx, d))
			}
			return ok
		}},
		damage{"coins owed to delegators taken", "rewards/can-withdraw", func(w *World, ctx sdk.Context) bool {
			rels, err := w.project(Sim{ctx: ctx})
			must(err)
			owed := false
			for _, v := range rels.num["ent"] {
				if w.cfg.units(v) > 10 {
					owed = true
				}
			}
			return w.takeAll(ctx, w.addr["rwd"]) && owed
		}},
	)
	return
}

type outst struct {
	walk func(sdk.Context, func(uint32, rwtypes.OutstandingRewards)) error
	set  func(sdk.Context, uint32, rwtypes.OutstandingRewards)
}

func (w *World) outstandings() (r []outst) {
	k := w.app.RewardsKeeper
	for _, m := range []interface{}{k.PoolOutstandingRewards, k.OperatorOutstandingRewards, k.ServiceOutstandingRewards} {
		m := m.(outstandingMap)
		r = append(r, outst{
			walk: func(ctx sdk.Context, f func(uint32, rwtypes.OutstandingRewards)) error {
				return m.Walk(ctx, nil, func(id uint32, x rwtypes.OutstandingRewards) (bool, error) {
					f(id, x)
					return false, nil
				})
			},
			set: func(ctx sdk.Context, id uint32, x rwtypes.OutstandingRewards) { must(m.Set(ctx, id, x)) },
		})
	}
	return
}

func (w *World) outstanding(ctx sdk.Context) bool {
	due := false
	for _, m := range w.outstandings() {
		must(m.walk(ctx, func(_ uint32, x rwtypes.OutstandingRewards) {
			if cs, _ := x.Rewards.Sum().TruncateDecimal(); !cs.IsZero() {
				due = true
			}
		}))
	}
	return due
}

func (w *World) checkDamage(s Sim) string {
	for _, d := range damages() {
		b := s.branch()
		if !d.do(w, b.ctx) {
			continue
		}
		w.note("damage: " + d.name)
		if _, ok := w.invariants(b)[d.route]; !ok {
			return fmt.Sprintf("invariant %s does not report: %s", d.route, d.name)
		}
	}
	return ""
}
