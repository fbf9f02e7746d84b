package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	optypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	rstypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rwtypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	svtypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// Action is one action record of the specification (see ActsOf in Milkyway.tla).
type Action map[string]interface{}

func (a Action) str(k string) string { s, _ := a[k].(string); return s }
func (a Action) kind() string        { return a.str("n") }
func (a Action) i64(k string) int64  { return num(a[k]) }
func (a Action) u32(k string) uint32 { return uint32(num(a[k])) }
func (a Action) flag(k string) bool  { b, _ := a[k].(bool); return b }
func (a Action) strs(k string) (r []string) {
	xs, _ := a[k].([]interface{})
	for _, x := range xs {
		r = append(r, x.(string))
	}
	return
}

// parts are the requests in a transaction.
func (a Action) parts() (r []Action) {
	if a.kind() != "Tx" {
		return []Action{a}
	}
	for _, x := range a["as"].([]interface{}) {
		r = append(r, Action(x.(map[string]interface{})))
	}
	return
}

func (a Action) String() string { b, _ := json.Marshal(a); return string(b) }

// Sim is a branch of the real chain: a (cached) context together with the block it is in.
type Sim struct {
	ctx    sdk.Context
	height int64
	now    int64
	blocks int
}

func (w *World) start() Sim {
	c, _ := w.base.CacheContext()
	return Sim{ctx: c, height: 1, now: 0}
}

func (s Sim) branch() Sim {
	c, _ := s.ctx.CacheContext()
	s.ctx = c
	return s
}

// Outcome of an action on the real chain.
type Outcome struct {
	OK    bool   `json:"ok"`
	Err   string `json:"err,omitempty"`
	Panic bool   `json:"panic,omitempty"`
	Block bool   `json:"block,omitempty"` // failure while processing a block
	Known string `json:"known,omitempty"` // the known finding that this outcome is
	Bad   string `json:"bad,omitempty"`   // a deviation found while executing (signers, ...)
}

func (w *World) coinsOf(v interface{}) sdk.Coins {
	cs := sdk.Coins{}
	m, _ := v.(map[string]interface{})
	for d, x := range m {
		if n := num(x); n != 0 {
			cs = append(cs, w.cfg.coin(d, n))
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Denom < cs[j].Denom })
	return cs
}

func (w *World) who(n string) string {
	if a, ok := w.addr[n]; ok {
		return a
	}
	return userAddr(n).String()
}

func ids(v interface{}) (r []uint32) {
	xs, _ := v.([]interface{})
	for _, x := range xs {
		r = append(r, uint32(num(x)))
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

func name(n string) string {
	if n == "=" {
		return optypes.DoNotModify
	}
	return n
}
func extra(p, n string) string {
	if n == "=" {
		return optypes.DoNotModify
	}
	return p + n
}

func delType(t string) rstypes.DelegationType {
	switch t[0] {
	case 'P':
		return rstypes.DELEGATION_TYPE_POOL
	case 'O':
		return rstypes.DELEGATION_TYPE_OPERATOR
	}
	return rstypes.DELEGATION_TYPE_SERVICE
}

func tid(t string) uint32 { var n uint32; fmt.Sscanf(t[1:], "%d", &n); return n }

func (w *World) when(t int64) time.Time { return genesisTime.Add(time.Duration(t) * w.cfg.unit) }

func (w *World) dist(v interface{}, pool bool) rwtypes.Distribution {
	m := v.(map[string]interface{})
	wt := uint32(num(m["w"]))
	var ws []rwtypes.DistributionWeight
	switch x := m["ws"].(type) {
	case []interface{}:
		for i, y := range x {
			ws = append(ws, rwtypes.NewDistributionWeight(uint32(i+1), uint32(num(y))))
		}
	case map[string]interface{}:
		var ks []int
		for k := range x {
			var n int
			fmt.Sscanf(k, "%d", &n)
			ks = append(ks, n)
		}
		sort.Ints(ks)
		for _, k := range ks {
			ws = append(ws, rwtypes.NewDistributionWeight(uint32(k), uint32(num(x[fmt.Sprint(k)]))))
		}
	}
	switch m["ty"].(string) {
	case "basic":
		if pool {
			return rwtypes.NewBasicPoolsDistribution(wt)
		}
		return rwtypes.NewBasicOperatorsDistribution(wt)
	case "egal":
		if pool {
			return rwtypes.NewEgalitarianPoolsDistribution(wt)
		}
		return rwtypes.NewEgalitarianOperatorsDistribution(wt)
	}
	if pool {
		return rwtypes.NewWeightedPoolsDistribution(wt, ws)
	}
	return rwtypes.NewWeightedOperatorsDistribution(wt, ws)
}

var hugeAmount, _ = math.NewIntFromString("57896044618658097711785492504343953926634992332820282019728792003956564819967") // 2^255-1

func (w *World) planAmount(a Action) sdk.Coins {
	cs := w.coinsOf(a["amt"])
	if a.flag("huge") {
		cs = sdk.Coins{sdk.NewCoin(w.cfg.real(w.cfg.Rwd[0]), hugeAmount)}
	}
	return cs
}

// msg translates an action into the message a user would sign.
func (w *World) msg(a Action) sdk.Msg {
	u := ""
	if a["u"] != nil {
		u = w.who(a.str("u"))
	}
	switch a.kind() {
	case "DelPool":
		return &rstypes.MsgDelegatePool{Delegator: u, Amount: w.cfg.coin(a.str("d"), a.i64("x"))}
	case "DelOp":
		return &rstypes.MsgDelegateOperator{Delegator: u, OperatorID: a.u32("i"), Amount: w.coinsOf(a["c"])}
	case "DelSvc":
		return &rstypes.MsgDelegateService{Delegator: u, ServiceID: a.u32("i"), Amount: w.coinsOf(a["c"])}
	case "UndPool":
		return &rstypes.MsgUndelegatePool{Delegator: u, Amount: w.cfg.coin(a.str("d"), a.i64("x"))}
	case "UndOp":
		return &rstypes.MsgUndelegateOperator{Delegator: u, OperatorID: a.u32("i"), Amount: w.coinsOf(a["c"])}
	case "UndSvc":
		return &rstypes.MsgUndelegateService{Delegator: u, ServiceID: a.u32("i"), Amount: w.coinsOf(a["c"])}
	case "RegOp":
		n := a.str("nm")
		return &optypes.MsgRegisterOperator{Sender: u, Moniker: name(n), Website: "w-" + n, PictureURL: "p-" + n, FeeAmount: w.coinsOf(a["fee"])}
	case "UpdOp":
		n := a.str("nm")
		return &optypes.MsgUpdateOperator{Sender: u, OperatorID: a.u32("i"), Moniker: name(n), Website: extra("w-", n), PictureURL: extra("p-", n)}
	case "DeactOp":
		return &optypes.MsgDeactivateOperator{Sender: u, OperatorID: a.u32("i")}
	case "ReactOp":
		return &optypes.MsgReactivateOperator{Sender: u, OperatorID: a.u32("i")}
	case "RmOp":
		return &optypes.MsgDeleteOperator{Sender: u, OperatorID: a.u32("i")}
	case "XferOp":
		return &optypes.MsgTransferOperatorOwnership{Sender: u, OperatorID: a.u32("i"), NewAdmin: w.who(a.str("to"))}
	case "SetOpPar":
		return &optypes.MsgSetOperatorParams{Sender: u, OperatorID: a.u32("i"), Params: optypes.OperatorParams{CommissionRate: math.LegacyNewDecWithPrec(a.i64("rate"), 2)}}
	case "CrSvc":
		n := a.str("nm")
		return &svtypes.MsgCreateService{Sender: u, Name: name(n), Description: "d-" + n, Website: "w-" + n, PictureURL: "p-" + n, FeeAmount: w.coinsOf(a["fee"])}
	case "UpdSvc":
		n := a.str("nm")
		return &svtypes.MsgUpdateService{Sender: u, ServiceID: a.u32("i"), Name: name(n), Description: extra("d-", n), Website: extra("w-", n), PictureURL: extra("p-", n)}
	case "ActSvc":
		return &svtypes.MsgActivateService{Sender: u, ServiceID: a.u32("i")}
	case "DeactSvc":
		return &svtypes.MsgDeactivateService{Sender: u, ServiceID: a.u32("i")}
	case "RmSvc":
		return &svtypes.MsgDeleteService{Sender: u, ServiceID: a.u32("i")}
	case "XferSvc":
		return &svtypes.MsgTransferServiceOwnership{Sender: u, ServiceID: a.u32("i"), NewAdmin: w.who(a.str("to"))}
	case "SetSvcPar":
		return &svtypes.MsgSetServiceParams{Sender: u, ServiceID: a.u32("i"), ServiceParams: svtypes.ServiceParams{AllowedDenoms: w.reals(a.strs("den"))}}
	case "Accredit":
		if a.flag("on") {
			return &svtypes.MsgAccreditService{Authority: u, ServiceID: a.u32("i")}
		}
		return &svtypes.MsgRevokeServiceAccreditation{Authority: u, ServiceID: a.u32("i")}
	case "Join":
		return &rstypes.MsgJoinService{Sender: u, OperatorID: a.u32("o"), ServiceID: a.u32("i")}
	case "Leave":
		return &rstypes.MsgLeaveService{Sender: u, OperatorID: a.u32("o"), ServiceID: a.u32("i")}
	case "AddAllow":
		return &rstypes.MsgAddOperatorToAllowList{Sender: u, OperatorID: a.u32("o"), ServiceID: a.u32("i")}
	case "RmAllow":
		return &rstypes.MsgRemoveOperatorFromAllowlist{Sender: u, OperatorID: a.u32("o"), ServiceID: a.u32("i")}
	case "Borrow":
		return &rstypes.MsgBorrowPoolSecurity{Sender: u, ServiceID: a.u32("i"), PoolID: a.u32("p")}
	case "Cease":
		return &rstypes.MsgCeasePoolSecurityBorrow{Sender: u, ServiceID: a.u32("i"), PoolID: a.u32("p")}
	case "SetPrefs":
		return &rstypes.MsgSetUserPreferences{User: u, Preferences: rstypes.UserPreferences{TrustNonAccreditedServices: a.flag("tn"), TrustAccreditedServices: a.flag("ta"), TrustedServicesIDs: ids(a["ids"])}}
	case "ParRestaking":
		return &rstypes.MsgUpdateParams{Authority: u, Params: rstypes.Params{UnbondingTime: time.Duration(a.i64("unb")) * w.cfg.unit, AllowedDenoms: w.reals(a.strs("rden"))}}
	case "ParOps":
		return &optypes.MsgUpdateParams{Authority: u, Params: optypes.Params{OperatorRegistrationFee: w.coinsOf(a["fee"]), DeactivationTime: time.Duration(a.i64("deact")) * w.cfg.unit}}
	case "ParSvc":
		return &svtypes.MsgUpdateParams{Authority: u, Params: svtypes.Params{ServiceRegistrationFee: w.coinsOf(a["fee"])}}
	case "ParRewards":
		return &rwtypes.MsgUpdateParams{Authority: u, Params: rwtypes.Params{RewardsPlanCreationFee: w.coinsOf(a["fee"])}}
	case "ParLV":
		return &lvtypes.MsgUpdateParams{Authority: u, Params: w.lvParams(a.i64("pct"), a.strs("mint"), a.strs("burn"), a.strs("trust"), a.strs("chan"))}
	case "CreatePlan":
		return &rwtypes.MsgCreateRewardsPlan{Sender: u, Description: "plan", ServiceID: a.u32("i"), Amount: w.planAmount(a),
			StartTime: w.when(a.i64("from")), EndTime: w.when(a.i64("to")),
			PoolsDistribution: w.dist(a["pd"], true), OperatorsDistribution: w.dist(a["od"], false),
			UsersDistribution: rwtypes.NewBasicUsersDistribution(uint32(a.i64("uw"))), FeeAmount: w.coinsOf(a["fee"])}
	case "EditPlan":
		return &rwtypes.MsgEditRewardsPlan{Sender: u, ID: uint64(a.i64("p")), Description: "plan", Amount: w.planAmount(a),
			StartTime: w.when(a.i64("from")), EndTime: w.when(a.i64("to")),
			PoolsDistribution: w.dist(a["pd"], true), OperatorsDistribution: w.dist(a["od"], false),
			UsersDistribution: rwtypes.NewBasicUsersDistribution(uint32(a.i64("uw")))}
	case "WithdrawRewards":
		t := a.str("t")
		return &rwtypes.MsgWithdrawDelegatorReward{DelegatorAddress: u, DelegationType: delType(t), DelegationTargetID: tid(t)}
	case "WithdrawCommission":
		return &rwtypes.MsgWithdrawOperatorCommission{Sender: u, OperatorID: a.u32("i")}
	case "SetWithdraw":
		return &rwtypes.MsgSetWithdrawAddress{Sender: u, WithdrawAddress: w.who(a.str("to"))}
	case "Mint":
		return &lvtypes.MsgMintLockedRepresentation{Sender: u, Receiver: w.who(a.str("to")), Amount: sdk.Coins{w.cfg.coin(a.str("d"), a.i64("x"))}}
	case "Burn":
		return &lvtypes.MsgBurnLockedRepresentation{Sender: u, User: w.who(a.str("who")), Amount: w.coinsOf(a["c"])}
	case "WInsure":
		return &lvtypes.MsgWithdrawInsuranceFund{Sender: u, Amount: w.coinsOf(a["c"])}
	case "Send":
		return &banktypes.MsgSend{FromAddress: u, ToAddress: w.who(a.str("to")), Amount: w.coinsOf(a["c"])}
	case "RegAsset":
		return &assetstypes.MsgRegisterAsset{Authority: u, Asset: assetstypes.Asset{Denom: w.cfg.real(a.str("d")), Ticker: a.str("tick"), Exponent: a.u32("exp")}}
	case "DeregAsset":
		return &assetstypes.MsgDeregisterAsset{Authority: u, Denom: w.cfg.real(a.str("d"))}
	}
	fatal("unknown action %s", a)
	return nil
}

func (w *World) reals(ds []string) (r []string) {
	for _, d := range ds {
		r = append(r, w.cfg.real(d))
	}
	sort.Strings(r)
	return
}

func rescue(o *Outcome) {
	if r := recover(); r != nil {
		o.OK, o.Panic, o.Err = false, true, fmt.Sprint(r)
	}
}

// apply executes the action on the branch. On rejection the branch is left as it was.
func (w *World) apply(s *Sim, a Action) (o Outcome) {
	switch a.kind() {
	case "Block":
		return w.block(s, a.i64("x"))
	case "ExportImport":
		return w.exportImport(s)
	case "SetPrice":
		w.setPrice(s.ctx, a.str("tick"), a.i64("x"))
		return Outcome{OK: true}
	case "Deposit":
		return w.deposit(s, a)
	case "Tx":
		b := s.branch()
		for _, x := range a.parts() {
			if o = w.apply(&b, x); !o.OK {
				return
			}
		}
		b.ctx.MultiStore().(storetypes.CacheMultiStore).Write()
		return
	}
	msg := w.msg(a)
	return w.run(s, msg, a.str("u"))
}

func (w *World) run(s *Sim, msg sdk.Msg, actor string) (o Outcome) {
	signers, _, err := w.app.AppCodec().GetMsgV1Signers(msg)
	if err != nil || len(signers) != 1 || sdk.AccAddress(signers[0]).String() != w.who(actor) {
		return Outcome{Bad: fmt.Sprintf("signers of %T are %v (%v), expected %s", msg, signers, err, actor)}
	}
	cctx, write := s.ctx.CacheContext()
	func() {
		defer rescue(&o)
		if vb, ok := msg.(sdk.HasValidateBasic); ok {
			if err := vb.ValidateBasic(); err != nil {
				o.Err = err.Error()
				return
			}
		}
		// what reaches the handler went through the wire encoding
		bz, err := w.app.AppCodec().MarshalInterface(msg)
		must(err)
		var dec sdk.Msg
		must(w.app.AppCodec().UnmarshalInterface(bz, &dec))
		if _, err := w.app.MsgServiceRouter().Handler(dec)(cctx, dec); err != nil {
			o.Err = err.Error()
			return
		}
		o.OK = true
	}()
	if o.OK {
		write()
	}
	return o
}

func (w *World) block(s *Sim, dt int64) (o Outcome) {
	cctx, write := s.ctx.CacheContext()
	func() {
		defer rescue(&o)
		if _, err := w.app.EndBlocker(cctx); err != nil {
			o.Err = "end block: " + err.Error()
			return
		}
		s2 := w.at(cctx, s.height+1, s.now+dt)
		if _, err := w.app.BeginBlocker(s2); err != nil {
			o.Err = "begin block: " + err.Error()
			return
		}
		o.OK = true
	}()
	o.Block = !o.OK
	if o.OK {
		write()
		s.height, s.now, s.blocks = s.height+1, s.now+dt, s.blocks+1
		s.ctx = w.at(s.ctx, s.height, s.now)
	}
	return o
}

// deposit delivers a transfer packet carrying an insurance deposit through the whole IBC stack.
func (w *World) deposit(s *Sim, a Action) (o Outcome) {
	type dep struct {
		Depositor string   `json:"depositor"`
		Amount    math.Int `json:"amount"`
	}
	var deps = []dep{}
	lst, _ := a["lst"].([]interface{})
	for _, x := range lst {
		p := x.([]interface{})
		deps = append(deps, dep{w.who(p[0].(string)), w.cfg.scale.MulRaw(num(p[1]))})
	}
	memo, err := json.Marshal(map[string]interface{}{lvtypes.ModuleName: map[string]interface{}{"amounts": deps}})
	must(err)
	ch, src := a.str("ch"), "channel-77"
	denom := w.cfg.Denoms[a.str("d")].Base
	if a.str("form") == "h" {
		denom = transfertypes.GetDenomPrefix("transfer", src) + w.cfg.real(a.str("d"))
	}
	data := transfertypes.NewFungibleTokenPacketData(denom, w.cfg.scale.MulRaw(a.i64("x")).String(), w.who(a.str("snd")), w.who(a.str("rcv")), string(memo))
	packet := channeltypes.NewPacket(data.GetBytes(), 1, "transfer", src, "transfer", ch, clienttypes.NewHeight(1, 1000000), 0)
	cctx, write := s.ctx.CacheContext()
	func() {
		defer rescue(&o)
		mod, ok := w.app.IBCKeeper.Router.GetRoute(transfertypes.ModuleName)
		if !ok {
			fatal("no transfer route")
		}
		ack := mod.OnRecvPacket(cctx, packet, userAddr("relayer"))
		if ack == nil || !ack.Success() {
			o.Err = "error acknowledgement"
			if ack != nil {
				o.Err += ": " + string(ack.Acknowledgement())
			}
			return
		}
		o.OK = true
	}()
	if o.OK {
		write()
	}
	return o
}

func trimErr(e string) string {
	e = strings.TrimSpace(e)
	if len(e) > 400 {
		e = e[:400]
	}
	return e
}
