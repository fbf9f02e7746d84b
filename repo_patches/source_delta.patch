From cc4d97186aafe4659fb1f7ae6a9a7073134c240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 01/28] fix: do not fail the block when an unbonding delegation
 is queued more than once

Two undelegations of the same delegator from the same target can be in the
unbonding queue when their entries mature: the first pair processed completes
all of them and removes the unbonding delegation, and the second pair made the
EndBlocker return an error, halting the chain.
---
 x/restaking/keeper/end_blocker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/restaking/keeper/end_blocker.go b/x/restaking/keeper/end_blocker.go
index 8e3aa90..f5e7b6c 100644
--- a/x/restaking/keeper/end_blocker.go
+++ b/x/restaking/keeper/end_blocker.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"fmt"
 
+	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
 	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
@@ -20,6 +21,12 @@ func (k *Keeper) CompleteMatureUnbondingDelegations(ctx sdk.Context) error {
 
 		balances, err := k.CompleteUnbonding(ctx, data)
 		if err != nil {
+			// The queue can contain the same (delegator, target) pair more than
+			// once, and all its mature entries are completed the first time it
+			// is processed
+			if errors.IsOf(err, types.ErrNoUnbondingDelegation) {
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From d1188ff5985a7275ab5c3dc6655e48da18d907f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 02/28] fix: keep staked tokens and delegator shares when
 updating operators and services

Updating the metadata of an operator or a service rebuilt it from scratch,
which reset its tokens and delegator shares to zero.
---
 x/operators/types/models.go | 7 ++++++-
 x/services/types/models.go  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/x/operators/types/models.go b/x/operators/types/models.go
index 9f67af3..9f002f6 100644
--- a/x/operators/types/models.go
+++ b/x/operators/types/models.go
@@ -220,7 +220,7 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL = o.PictureURL
 	}
 
-	return NewOperator(
+	updated := NewOperator(
 		o.ID,
 		o.Status,
 		update.Moniker,
@@ -228,6 +228,11 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL,
 		o.Admin,
 	)
+
+	// Preserve the fields that cannot be updated
+	updated.Tokens = o.Tokens
+	updated.DelegatorShares = o.DelegatorShares
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/services/types/models.go b/x/services/types/models.go
index 0426655..0c4a341 100644
--- a/x/services/types/models.go
+++ b/x/services/types/models.go
@@ -241,7 +241,7 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		update.PictureURL = s.PictureURL
 	}
 
-	return NewService(
+	updated := NewService(
 		s.ID,
 		s.Status,
 		update.Name,
@@ -251,6 +251,11 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		s.Admin,
 		s.Accredited,
 	)
+
+	// Preserve the fields that cannot be updated
+	updated.Tokens = s.Tokens
+	updated.DelegatorShares = s.DelegatorShares
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From e6cf3e22be7f5fc8df9a8ae87835e76ea61d3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 03/28] fix: complete the unbonding delegations of deleted
 operators and services

Completing an unbonding delegation required its target to still exist, so
the unbonding of an operator or service deleted in the meantime made the
EndBlocker return an error, halting the chain.
---
 x/restaking/keeper/alias_functions.go | 33 ++++++---------------------
 x/restaking/keeper/unbond.go          | 10 ++------
 2 files changed, 9 insertions(+), 34 deletions(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index ae6a80e..8413e83 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -673,38 +673,19 @@ func (k *Keeper) PerformDelegation(ctx context.Context, data types.DelegationDat
 // --- Unbonding operations
 // --------------------------------------------------------------------------------------------------------------------
 
-// getUnbondingDelegationTarget returns the target of the given unbonding delegation
-func (k *Keeper) getUnbondingDelegationTarget(ctx context.Context, ubd types.UnbondingDelegation) (types.DelegationTarget, error) {
+// getUnbondingDelegationTargetAddress returns the address of the account holding the tokens of the given
+// unbonding delegation. It does not require the target to still exist: an operator or a service can be deleted
+// while some of its former delegators are still unbonding.
+func (k *Keeper) getUnbondingDelegationTargetAddress(ubd types.UnbondingDelegation) (sdk.AccAddress, error) {
 	switch ubd.Type {
 	case types.DELEGATION_TYPE_POOL:
-		pool, found, err := k.poolsKeeper.GetPool(ctx, ubd.TargetID)
-		if err != nil {
-			return nil, err
-		}
-		if !found {
-			return nil, poolstypes.ErrPoolNotFound
-		}
-		return pool, nil
+		return poolstypes.GetPoolAddress(ubd.TargetID), nil
 
 	case types.DELEGATION_TYPE_OPERATOR:
-		operator, found, err := k.operatorsKeeper.GetOperator(ctx, ubd.TargetID)
-		if err != nil {
-			return nil, err
-		}
-		if !found {
-			return nil, operatorstypes.ErrOperatorNotFound
-		}
-		return operator, nil
+		return operatorstypes.GetOperatorAddress(ubd.TargetID), nil
 
 	case types.DELEGATION_TYPE_SERVICE:
-		service, found, err := k.servicesKeeper.GetService(ctx, ubd.TargetID)
-		if err != nil {
-			return nil, err
-		}
-		if !found {
-			return nil, servicestypes.ErrServiceNotFound
-		}
-		return service, nil
+		return servicestypes.GetServiceAddress(ubd.TargetID), nil
 
 	default:
 		return nil, errors.Wrapf(types.ErrInvalidDelegationType, "invalid delegation type %v", ubd.Type)
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 7a29241..3669ec7 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -248,14 +248,8 @@ func (k *Keeper) CompleteUnbonding(ctx context.Context, data types.DTData) (sdk.
 		return nil, types.ErrNoUnbondingDelegation
 	}
 
-	// Get the target of the unbonding delegation
-	target, err := k.getUnbondingDelegationTarget(ctx, ubd)
-	if err != nil {
-		return nil, err
-	}
-
-	// Get the address of the target
-	targetAddress, err := sdk.AccAddressFromBech32(target.GetAddress())
+	// Get the address of the target of the unbonding delegation
+	targetAddress, err := k.getUnbondingDelegationTargetAddress(ubd)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ec994b6fd3b976b392c584eef0f87b29519eaca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 04/28] fix: do not delete operators and services that still
 have delegated tokens

Deleting a target with delegations removed all the data needed to undelegate
from it, locking the funds of its delegators forever.
---
 x/operators/keeper/operators.go | 6 ++++++
 x/services/keeper/services.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 16adc5d..12684fa 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -124,6 +124,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return types.ErrOperatorNotInactive
 	}
 
+	// Make sure that no tokens are still delegated to the operator, otherwise
+	// its delegators would not be able to get them back
+	if !operator.Tokens.IsZero() {
+		return errors.Wrapf(sdkerrors.ErrInvalidRequest, "operator %d still has delegated tokens", operator.ID)
+	}
+
 	// Call the hook
 	err := k.BeforeOperatorDeleted(ctx, operator.ID)
 	if err != nil {
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1535933..8772372 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -135,6 +135,12 @@ func (k *Keeper) DeleteService(ctx context.Context, serviceID uint32) error {
 		return types.ErrServiceIsActive
 	}
 
+	// Make sure that no tokens are still delegated to the service, otherwise
+	// its delegators would not be able to get them back
+	if !service.Tokens.IsZero() {
+		return errors.Wrapf(sdkerrors.ErrInvalidRequest, "service %d still has delegated tokens", serviceID)
+	}
+
 	// Call the hook
 	err = k.BeforeServiceDeleted(ctx, service.ID)
 	if err != nil {
-- 
2.43.0


From 4191319cef4f87554cd1df640e75014519d23525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 05/28] fix: delete the params of deleted operators and
 services

The params of an operator could outlive it, and a genesis exported with the
params of a deleted operator cannot be imported.
---
 x/operators/keeper/operators.go | 6 ++++++
 x/services/keeper/services.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 12684fa..1516ccb 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -142,6 +142,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return err
 	}
 
+	// Delete the operator params, they might have been set while the operator was inactive
+	err = k.DeleteOperatorParams(ctx, operator.ID)
+	if err != nil {
+		return err
+	}
+
 	return k.operatorAddressSet.Remove(ctx, operator.Address)
 }
 
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 8772372..b2509be 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -153,6 +153,12 @@ func (k *Keeper) DeleteService(ctx context.Context, serviceID uint32) error {
 		return err
 	}
 
+	// Remove the service params
+	err = k.serviceParams.Remove(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return k.serviceAddressSet.Remove(ctx, service.Address)
 }
 
-- 
2.43.0


From 546d8fca7cd72807b780119530e8dff7e6bd553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 06/28] fix: do not overflow the sum of the distribution
 weights of a rewards plan

The weights are user-provided uint32 values and their sum could wrap around,
allocating more rewards than the plan provides.
---
 x/rewards/keeper/allocation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 09330e4..9de4a78 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -248,15 +248,15 @@ func (k *Keeper) AllocateRewardsByPlan(
 	}
 
 	// Only sum weights with non-zero delegation values.
-	totalWeightsNonZeroDelValues := uint32(0)
+	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.PoolsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.PoolsDistribution.Weight)
 	}
 	if totalOperatorsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.OperatorsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.OperatorsDistribution.Weight)
 	}
 	if totalUsersDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.UsersDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.UsersDistribution.Weight)
 	}
 
 	var poolsRewards, operatorsRewards, usersRewards sdk.DecCoins
-- 
2.43.0


From ebf7f91f657cb346c82acb34ebb0b4d0d357f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 07/28] fix: keep the pools shares trusting a service in sync
 with its accreditation

The rewards hook iterated the delegations of the service itself instead of the
pool delegations, failing when there was any, and was run after the status had
been changed, so the pending rewards were settled using the new status.
---
 x/rewards/keeper/hooks.go     | 48 ++++++++++++++++++++++-------------
 x/services/keeper/services.go | 11 ++++----
 x/services/types/hooks.go     |  2 +-
 3 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index ff1e17c..7586968 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -131,7 +131,10 @@ func (k *Keeper) AfterDelegationModified(ctx context.Context, delType restakingt
 	return nil
 }
 
-// AfterServiceAccreditationModified implements servicestypes.ServicesHooks
+// AfterServiceAccreditationModified is called when the accreditation of a
+// service is being modified, while the service still has its previous status.
+// It settles the rewards and updates the total delegator shares of all the
+// users that have delegated to a pool and whose trust in the service changes.
 func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error {
 	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
 	if err != nil {
@@ -142,30 +145,41 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		return servicestypes.ErrServiceNotFound
 	}
 
-	err = k.restakingKeeper.IterateServiceDelegations(ctx, serviceID, func(del restakingtypes.Delegation) (stop bool, err error) {
-		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
-		if err != nil {
-			return true, err
+	// Clone the service and invert the accreditation status to get the
+	// next state
+	serviceAfter := service
+	serviceAfter.Accredited = !serviceAfter.Accredited
+
+	// Get all the users that have delegated to at least one pool
+	var users []string
+	visited := map[string]bool{}
+	err = k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		if !visited[del.UserAddress] {
+			visited[del.UserAddress] = true
+			users = append(users, del.UserAddress)
 		}
+		return false, nil
+	})
+	if err != nil {
+		return err
+	}
 
-		// Clone the service and invert the accreditation status to get the
-		// previous state
-		serviceBefore := service
-		serviceBefore.Accredited = !serviceBefore.Accredited
+	for _, user := range users {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, user)
+		if err != nil {
+			return err
+		}
 
-		trustedBefore := preferences.IsServiceTrusted(serviceBefore)
-		trustedAfter := preferences.IsServiceTrusted(service)
+		trustedBefore := preferences.IsServiceTrusted(service)
+		trustedAfter := preferences.IsServiceTrusted(serviceAfter)
 		if trustedBefore != trustedAfter {
-			err = k.AfterUserTrustedServiceUpdated(ctx, del.UserAddress, service.ID, trustedAfter)
+			err = k.AfterUserTrustedServiceUpdated(ctx, user, service.ID, trustedAfter)
 			if err != nil {
-				return true, err
+				return err
 			}
 		}
-		return false, nil
-	})
-	if err != nil {
-		return err
 	}
+
 	return nil
 }
 
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index b2509be..3335a7b 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -179,15 +179,16 @@ func (k *Keeper) SetServiceAccredited(ctx context.Context, serviceID uint32, acc
 		return nil
 	}
 
-	// Update the service accreditation status
-	service.Accredited = accredited
-	err = k.SaveService(ctx, service)
+	// Call the hook before storing the new accreditation status so that the
+	// modules listening can still rely on the previous one
+	err = k.AfterServiceAccreditationModified(ctx, service.ID)
 	if err != nil {
 		return err
 	}
 
-	// Call the hook
-	return k.AfterServiceAccreditationModified(ctx, service.ID)
+	// Update the service accreditation status
+	service.Accredited = accredited
+	return k.SaveService(ctx, service)
 }
 
 // HasService checks if a Service with the given ID exists in the KVStore
diff --git a/x/services/types/hooks.go b/x/services/types/hooks.go
index 33c5069..6661d5b 100644
--- a/x/services/types/hooks.go
+++ b/x/services/types/hooks.go
@@ -17,7 +17,7 @@ type ServicesHooks interface {
 	AfterServiceCreated(ctx context.Context, serviceID uint32) error               // Must be called after a service is created
 	AfterServiceActivated(ctx context.Context, serviceID uint32) error             // Must be called after a service is registered
 	AfterServiceDeactivated(ctx context.Context, serviceID uint32) error           // Must be called after a service is deregistered
-	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called after a service accreditation is changed
+	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called when a service accreditation changes, before the new status is stored
 	BeforeServiceDeleted(ctx context.Context, serviceID uint32) error              // Must be called before a service is deleted
 }
 
-- 
2.43.0


From 1957cbf8f371c4dfee2ecff493db3cff483abe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 08/28] fix: always track the pools shares of the users
 trusting a service

The shares were not tracked when the service was created after the user had
decided to trust it, or while the service was not borrowing the security of the
pool, breaking the rewards accounting afterwards.
---
 x/rewards/keeper/pool_service_shares.go | 40 +++++++++++++++++++------
 x/rewards/keeper/services_hooks.go      |  7 ++++-
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index b5dfe43..b418ee0 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -4,6 +4,7 @@ import (
 	"context"
 
 	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
+	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
 // AfterUserTrustedServiceUpdated is called after a user's trust in a service is
@@ -21,15 +22,6 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	}
 
 	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		isSecured, err := k.restakingKeeper.IsServiceSecuredByPool(ctx, serviceID, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		if !isSecured {
-			return false, nil
-		}
-
 		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
 		if err != nil {
 			return true, err
@@ -59,3 +51,33 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 		return false, nil
 	})
 }
+
+// initializePoolServiceTotalDelegatorShares initializes the total delegator
+// shares of a newly created service for all the pools, including the shares of
+// the users whose preferences make them already trust the service.
+func (k *Keeper) initializePoolServiceTotalDelegatorShares(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if preferences.IsServiceTrusted(service) {
+			err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+			if err != nil {
+				return true, err
+			}
+		}
+
+		return false, nil
+	})
+}
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index d36a5ae..97792d5 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -19,7 +19,12 @@ func (k *Keeper) ServicesHooks() ServicesHooks {
 
 // AfterServiceCreated implements servicestypes.ServicesHooks
 func (h ServicesHooks) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
-	return h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	err := h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
+	return h.k.initializePoolServiceTotalDelegatorShares(ctx, serviceID)
 }
 
 // AfterServiceActivated implements servicestypes.ServicesHooks
-- 
2.43.0


From 076545a239df2dc37328d3ef285e57663a24e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 09/28] fix: allocate the rewards only to the tokens that have
 been valued

Tokens with a denom that is not allowed were excluded from the value of a
delegation target but still received rewards, allocating more rewards than
available. Also consider the global restakable denoms when a service allows all
the denoms.
---
 x/rewards/keeper/allocation.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 9de4a78..9a02405 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -25,6 +25,9 @@ import (
 // delegation value.
 type DistributionInfo struct {
 	DelegationTarget DelegationTarget
+	// DelegationsTokens are the delegated tokens that are taken into account
+	DelegationsTokens sdk.Coins
+	// DelegationsValue is the value of DelegationsTokens
 	DelegationsValue math.LegacyDec
 }
 
@@ -132,7 +135,10 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 			// The global restakable denoms are not set: use the one configured
 			// in the service params
 			serviceRestakableDenoms = serviceParams.AllowedDenoms
-		} else if len(serviceParams.AllowedDenoms) > 0 {
+		} else if len(serviceParams.AllowedDenoms) == 0 {
+			// The service allows all the denoms: use the global restakable denoms
+			serviceRestakableDenoms = restakableDenoms
+		} else {
 			// We have both the global restakable denoms and the service denoms,
 			// intersect them to have the list of restakable denoms
 			serviceRestakableDenoms = utils.Intersect(restakableDenoms, serviceParams.AllowedDenoms)
@@ -295,6 +301,7 @@ func (k *Keeper) AllocateRewardsByPlan(
 			ctx,
 			plan.UsersDistribution,
 			service,
+			tokensDelegatedToService,
 			totalUsersDelValues,
 			usersRewards,
 		)
@@ -415,8 +422,9 @@ func (k *Keeper) getDistrInfos(
 		}
 
 		distrInfos = append(distrInfos, DistributionInfo{
-			DelegationTarget: target,
-			DelegationsValue: delValue,
+			DelegationTarget:  target,
+			DelegationsTokens: targetTokens,
+			DelegationsValue:  delValue,
 		})
 		totalDelValues = totalDelValues.Add(delValue)
 	}
@@ -537,6 +545,7 @@ func (k *Keeper) allocateRewardsToUsers(
 	ctx context.Context,
 	distr types.UsersDistribution,
 	service servicestypes.Service,
+	delTokens sdk.Coins,
 	totalDelValues math.LegacyDec,
 	rewards sdk.DecCoins,
 ) error {
@@ -552,8 +561,9 @@ func (k *Keeper) allocateRewardsToUsers(
 			return err
 		}
 		return k.allocateDelegationTargetRewards(ctx, service.ID, DistributionInfo{
-			DelegationTarget: target,
-			DelegationsValue: totalDelValues,
+			DelegationTarget:  target,
+			DelegationsTokens: delTokens,
+			DelegationsValue:  totalDelValues,
 		}, rewards)
 	default:
 		panic("unknown operators distribution type")
@@ -564,7 +574,7 @@ func (k *Keeper) allocateRewardsToUsers(
 func (k *Keeper) allocateDelegationTargetRewards(
 	ctx context.Context, serviceID uint32, distrInfo DistributionInfo, rewards sdk.DecCoins,
 ) error {
-	for _, token := range distrInfo.DelegationTarget.GetTokens() {
+	for _, token := range distrInfo.DelegationsTokens {
 		tokenValue, err := k.GetCoinValue(ctx, token)
 		if err != nil {
 			return err
-- 
2.43.0


From 172f8061caf221be426190dc8e280e86384eff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 10/28] fix: pay the commission of deleted operators from the
 rewards pool

The rewards module has no account of its own: the commission is held by the
global rewards pool.
---
 x/rewards/keeper/target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/rewards/keeper/target.go b/x/rewards/keeper/target.go
index 1737ee0..a85d5d3 100644
--- a/x/rewards/keeper/target.go
+++ b/x/rewards/keeper/target.go
@@ -352,7 +352,7 @@ func (k *Keeper) clearOperator(ctx context.Context, outstanding sdk.DecCoins, op
 				return outstanding, err
 			}
 
-			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.ModuleName, withdrawAddr, coins)
+			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.RewardsPoolName, withdrawAddr, coins)
 			if err != nil {
 				return outstanding, err
 			}
-- 
2.43.0


From a76d188ea154e135cbc7ebc682827bd96d30569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 11/28] fix: do not halt or lose rewards when a plan has
 nothing to distribute to

A plan whose service had been deleted made the begin blocker fail, and the
rewards of a plan without eligible delegations (or with an inactive service)
were moved to the rewards pool without being allocated to anyone.
---
 x/rewards/keeper/allocation.go   | 15 ++++++++-------
 x/rewards/keeper/rewards_plan.go | 32 +++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 9a02405..ce9d671 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -197,19 +197,14 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
-	// Send the current block's rewards to the global rewards pool.
-	err := k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
-	if err != nil {
-		return err
-	}
-
 	service, found, err := k.servicesKeeper.GetService(ctx, plan.ServiceID)
 	if err != nil {
 		return err
 	}
 
 	if !found {
-		return servicestypes.ErrServiceNotFound
+		sdkCtx.Logger().Info("Skipping rewards plan because its service has been deleted", "plan_id", plan.ID)
+		return nil
 	}
 
 	// Ensure that we are distribution rewards only for active services
@@ -253,6 +248,12 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
+	// Send the current block's rewards to the global rewards pool.
+	err = k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
+	if err != nil {
+		return err
+	}
+
 	// Only sum weights with non-zero delegation values.
 	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 3eda7d4..83fba4d 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -122,7 +122,8 @@ func (k *Keeper) GetRewardsPlan(ctx context.Context, planID uint64) (types.Rewar
 }
 
 // terminateRewardsPlan removes a rewards plan and transfers the remaining
-// rewards in the plan's rewards pool to the service's address.
+// rewards in the plan's rewards pool to the service's address, or to the
+// community pool if the service has been deleted.
 func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPlan) error {
 	// Transfer remaining rewards in the plan's rewards pool to the service's
 	// address.
@@ -135,19 +136,24 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 			return err
 		}
 
-		if !found {
-			return servicestypes.ErrServiceNotFound
-		}
-
-		serviceAddr, err := k.accountKeeper.AddressCodec().StringToBytes(service.Address)
-		if err != nil {
-			return err
-		}
+		if found {
+			serviceAddr, err := k.accountKeeper.AddressCodec().StringToBytes(service.Address)
+			if err != nil {
+				return err
+			}
 
-		// Transfer all the remaining rewards to the service's address.
-		err = k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
-		if err != nil {
-			return err
+			// Transfer all the remaining rewards to the service's address.
+			err = k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
+			if err != nil {
+				return err
+			}
+		} else {
+			// The service has been deleted: transfer all the remaining rewards to the
+			// community pool.
+			err = k.communityPoolKeeper.FundCommunityPool(ctx, remaining, rewardsPoolAddr)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 616e607f47d8359f6d591bff11013509735b0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 12/28] fix: check the right data in the restaking and rewards
 invariants

The allowed operators invariant looked for an operator having the ID of the
service, reporting false positives, and the rewards module account invariant
ignored the outstanding rewards of operators and services.
---
 x/restaking/keeper/invariants.go |  2 +-
 x/rewards/keeper/invariants.go   | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/x/restaking/keeper/invariants.go b/x/restaking/keeper/invariants.go
index 606a7e8..c11b736 100644
--- a/x/restaking/keeper/invariants.go
+++ b/x/restaking/keeper/invariants.go
@@ -374,7 +374,7 @@ func AllowedOperatorsExistInvariant(k *Keeper) sdk.Invariant {
 		// Iterate over all the services joined by operators
 		var notFoundOperatorsIDs []uint32
 		err := k.IterateAllServicesAllowedOperators(ctx, func(serviceID uint32, operatorID uint32) (stop bool, err error) {
-			_, found, err := k.operatorsKeeper.GetOperator(ctx, serviceID)
+			_, found, err := k.operatorsKeeper.GetOperator(ctx, operatorID)
 			if err != nil {
 				return true, err
 			}
diff --git a/x/rewards/keeper/invariants.go b/x/rewards/keeper/invariants.go
index e89a773..f4e2119 100644
--- a/x/rewards/keeper/invariants.go
+++ b/x/rewards/keeper/invariants.go
@@ -350,12 +350,18 @@ func checkReferencesCount[T any](
 func ModuleAccountInvariant(k *Keeper) sdk.Invariant {
 	return func(ctx sdk.Context) (string, bool) {
 		var expectedCoins sdk.DecCoins
-		err := k.PoolOutstandingRewards.Walk(ctx, nil, func(_ uint32, rewards types.OutstandingRewards) (stop bool, err error) {
-			expectedCoins = expectedCoins.Add(rewards.Rewards.Sum()...)
-			return false, nil
-		})
-		if err != nil {
-			return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
+		for _, outstandingRewards := range []collections.Map[uint32, types.OutstandingRewards]{
+			k.PoolOutstandingRewards,
+			k.OperatorOutstandingRewards,
+			k.ServiceOutstandingRewards,
+		} {
+			err := outstandingRewards.Walk(ctx, nil, func(_ uint32, rewards types.OutstandingRewards) (stop bool, err error) {
+				expectedCoins = expectedCoins.Add(rewards.Rewards.Sum()...)
+				return false, nil
+			})
+			if err != nil {
+				return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
+			}
 		}
 
 		expectedInt, _ := expectedCoins.TruncateDecimal()
-- 
2.43.0


From 37c2ec1f051e66a5de5d8230b3334f1d39741cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 13/28] fix: do not allow restaking when the insurance fund
 cannot be read

---
 x/liquidvesting/keeper/restake_restriction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/liquidvesting/keeper/restake_restriction.go b/x/liquidvesting/keeper/restake_restriction.go
index 2aba1b4..0a27203 100644
--- a/x/liquidvesting/keeper/restake_restriction.go
+++ b/x/liquidvesting/keeper/restake_restriction.go
@@ -39,7 +39,7 @@ func (k *Keeper) RestakeRestrictionFn(ctx context.Context, restakerAddress strin
 	// Get the user's insurance fund
 	userInsuranceFund, err := k.GetUserInsuranceFund(ctx, restakerAddress)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// Get the module params
-- 
2.43.0


From 6db4b12057482eceee8ab64c6597c9ec6a25d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 14/28] fix: do not delete operators and services with pending
 unbonding delegations

Once deleted, their account is not recognized as a restaking target anymore and
sending back the locked representations fails, halting the chain.
---
 x/restaking/keeper/operators_hooks.go | 12 ++++++++++++
 x/restaking/keeper/services_hooks.go  | 12 ++++++++++++
 x/restaking/keeper/unbond.go          | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/x/restaking/keeper/operators_hooks.go b/x/restaking/keeper/operators_hooks.go
index 0c3bd91..2c443e0 100644
--- a/x/restaking/keeper/operators_hooks.go
+++ b/x/restaking/keeper/operators_hooks.go
@@ -23,6 +23,18 @@ func (k *Keeper) OperatorsHooks() operatorstypes.OperatorsHooks {
 
 // BeforeOperatorDeleted implements types.OperatorsHooks.
 func (o *OperatorsHooks) BeforeOperatorDeleted(ctx context.Context, operatorID uint32) error {
+	// Make sure nobody is still unbonding from the operator, since its account holds
+	// the tokens that have to be sent back and must be recognized as the one of a
+	// restaking target
+	unbondingDelegations, err := o.GetAllOperatorUnbondingDelegations(ctx)
+	if err != nil {
+		return err
+	}
+	err = ensureNoUnbondingDelegations(unbondingDelegations, operatorID)
+	if err != nil {
+		return err
+	}
+
 	// After the operator has been deleted
 	// we remove the data that we keep in the x/restaking module that are linked
 	// to the operator.
diff --git a/x/restaking/keeper/services_hooks.go b/x/restaking/keeper/services_hooks.go
index 54485ae..db5bcce 100644
--- a/x/restaking/keeper/services_hooks.go
+++ b/x/restaking/keeper/services_hooks.go
@@ -20,6 +20,18 @@ func (k *Keeper) ServicesHooks() servicestypes.ServicesHooks {
 
 // BeforeServiceDeleted implements types.ServicesHooks.
 func (h *ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// Make sure nobody is still unbonding from the service, since its account holds
+	// the tokens that have to be sent back and must be recognized as the one of a
+	// restaking target
+	unbondingDelegations, err := h.GetAllServiceUnbondingDelegations(ctx)
+	if err != nil {
+		return err
+	}
+	err = ensureNoUnbondingDelegations(unbondingDelegations, serviceID)
+	if err != nil {
+		return err
+	}
+
 	// After the service has been deleted
 	// we remove the data that we keep in the x/restaking
 	// associated to this service.
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 3669ec7..1be029c 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -8,6 +8,7 @@ import (
 	"cosmossdk.io/errors"
 	storetypes "cosmossdk.io/store/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/utils"
 	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
@@ -309,6 +310,17 @@ func (k *Keeper) CompleteUnbonding(ctx context.Context, data types.DTData) (sdk.
 	return balances, nil
 }
 
+// ensureNoUnbondingDelegations returns an error if any of the given unbonding delegations
+// is from the target having the given ID
+func ensureNoUnbondingDelegations(unbondingDelegations []types.UnbondingDelegation, targetID uint32) error {
+	for _, ubd := range unbondingDelegations {
+		if ubd.TargetID == targetID {
+			return errors.Wrapf(sdkerrors.ErrInvalidRequest, "target %d still has unbonding delegations", targetID)
+		}
+	}
+	return nil
+}
+
 // --------------------------------------------------------------------------------------------------------------------
 // --- Unbonding queue operations
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From fa0dbed60f6c3a4730d63cb891741acd09b3ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 15/28] fix: ignore the tokens not accepted by a pool when
 unbonding restaked assets

Burning locked representations failed for the users that were also delegating
another denom to a pool.
---
 x/restaking/keeper/alias_functions.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index 8413e83..326556f 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -833,7 +833,14 @@ func (k *Keeper) UnbondRestakedAssets(ctx context.Context, user sdk.AccAddress,
 
 		// Compute the shares that this delegation should have to undelegate
 		// all the remaining tokens
-		involvedShares, err := target.SharesFromDecCoins(toUndelegateTokens)
+		// NOTE: we only consider the tokens delegated to the target since pools don't
+		// accept other denoms
+		targetTokens := sdk.NewDecCoinsFromCoins(target.GetTokens()...)
+		involvedTokens := utils.FilterDecCoinsByDenom(toUndelegateTokens, targetTokens)
+		if len(involvedTokens) == 0 {
+			return false, nil
+		}
+		involvedShares, err := target.SharesFromDecCoins(involvedTokens)
 		if err != nil {
 			return true, err
 		}
-- 
2.43.0


From 089b96218a7a01c3e105f54ed30f63eafde6f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 16/28] fix: settle the rewards earned through pools before
 deleting a service

The rewards that the pools delegators had earned from the service and not
withdrawn yet could not be withdrawn anymore once the service was deleted.
---
 x/rewards/keeper/hooks.go          | 59 +++++++++++++++++++++++++-----
 x/rewards/keeper/services_hooks.go |  5 +++
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index 7586968..0cedcba 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -150,16 +150,7 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 	serviceAfter := service
 	serviceAfter.Accredited = !serviceAfter.Accredited
 
-	// Get all the users that have delegated to at least one pool
-	var users []string
-	visited := map[string]bool{}
-	err = k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
-		if !visited[del.UserAddress] {
-			visited[del.UserAddress] = true
-			users = append(users, del.UserAddress)
-		}
-		return false, nil
-	})
+	users, err := k.getPoolsDelegators(ctx)
 	if err != nil {
 		return err
 	}
@@ -183,6 +174,54 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 	return nil
 }
 
+// beforeTrustedServiceDeleted is called before a service is deleted. It settles
+// the rewards that all the users trusting the service have earned through pools.
+func (k *Keeper) beforeTrustedServiceDeleted(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	users, err := k.getPoolsDelegators(ctx)
+	if err != nil {
+		return err
+	}
+
+	for _, user := range users {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, user)
+		if err != nil {
+			return err
+		}
+
+		if preferences.IsServiceTrusted(service) {
+			err = k.AfterUserTrustedServiceUpdated(ctx, user, service.ID, false)
+			if err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
+// getPoolsDelegators returns all the users that have delegated to at least one pool
+func (k *Keeper) getPoolsDelegators(ctx context.Context) ([]string, error) {
+	var users []string
+	visited := map[string]bool{}
+	err := k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		if !visited[del.UserAddress] {
+			visited[del.UserAddress] = true
+			users = append(users, del.UserAddress)
+		}
+		return false, nil
+	})
+	return users, err
+}
+
 // AfterUserPreferencesModified is called after a user's trust in a service is
 // updated. It updates the total delegator shares for the service in all pools
 // where the user has a delegation.
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index 97792d5..4f9e05f 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -39,6 +39,11 @@ func (h ServicesHooks) AfterServiceDeactivated(context.Context, uint32) error {
 
 // BeforeServiceDeleted implements servicestypes.ServicesHooks
 func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	err := h.k.beforeTrustedServiceDeleted(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From 82b0f7767a2893c61b24f33f62a28050f2a15f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 17/28] fix: do not call the hooks when importing the users
 preferences

The hooks tried to withdraw the rewards of the pools delegations while the
rewards genesis had not been imported yet, making the import fail.
---
 x/restaking/keeper/genesis.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 2e197e7..8c26b51 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -110,8 +110,10 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 	}
 
 	// Store the user preferences
+	// NOTE: we don't call the hooks here since the other modules have their own
+	// genesis state which already considers these preferences
 	for _, entry := range data.UsersPreferences {
-		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
+		err := k.usersPreferences.Set(ctx, entry.UserAddress, entry.Preferences)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0ab966c2dd2dd25a2757497e058f54eb3f1e6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 18/28] fix: restore the unbonding IDs when importing the
 restaking genesis

---
 x/restaking/keeper/genesis.go | 15 ++++++++++++++-
 x/restaking/keeper/unbond.go  | 17 ++++++++++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 8c26b51..306fb7b 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -95,13 +95,20 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 	}
 
 	// Store the unbonding delegations
+	var lastUnbondingID uint64
 	for _, ubd := range data.UnbondingDelegations {
-		_, err := k.SetUnbondingDelegation(ctx, ubd)
+		ubdKey, err := k.SetUnbondingDelegation(ctx, ubd)
 		if err != nil {
 			return err
 		}
 
 		for _, entry := range ubd.Entries {
+			err = k.SetUnbondingDelegationByUnbondingID(ctx, ubd, ubdKey, entry.UnbondingID)
+			if err != nil {
+				return err
+			}
+			lastUnbondingID = max(lastUnbondingID, entry.UnbondingID)
+
 			err = k.InsertUBDQueue(ctx, ubd, entry.CompletionTime)
 			if err != nil {
 				return err
@@ -109,6 +116,12 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 		}
 	}
 
+	// Make sure the unbonding IDs that are still in use are not assigned again
+	err := k.setLastUnbondingID(ctx, lastUnbondingID)
+	if err != nil {
+		return err
+	}
+
 	// Store the user preferences
 	// NOTE: we don't call the hooks here since the other modules have their own
 	// genesis state which already considers these preferences
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 1be029c..e95e486 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -32,12 +32,8 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	// Increment the unbonding id
 	unbondingID++
 
-	// Convert back into bytes for storage
-	bz = make([]byte, 8)
-	binary.BigEndian.PutUint64(bz, unbondingID)
-
 	// Store the new unbonding id
-	err = store.Set(types.UnbondingIDKey, bz)
+	err = k.setLastUnbondingID(ctx, unbondingID)
 	if err != nil {
 		return 0, err
 	}
@@ -45,6 +41,17 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	return unbondingID, nil
 }
 
+// setLastUnbondingID stores the last unbonding ID that has been assigned
+func (k *Keeper) setLastUnbondingID(ctx context.Context, unbondingID uint64) error {
+	store := k.storeService.OpenKVStore(ctx)
+
+	// Convert into bytes for storage
+	bz := make([]byte, 8)
+	binary.BigEndian.PutUint64(bz, unbondingID)
+
+	return store.Set(types.UnbondingIDKey, bz)
+}
+
 // DeleteUnbondingIndex removes a mapping from UnbondingId to unbonding operation
 func (k *Keeper) DeleteUnbondingIndex(ctx context.Context, id uint64) error {
 	store := k.storeService.OpenKVStore(ctx)
-- 
2.43.0


From 53d19c057c148262a9b73507e75e7bf6615b5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 19/28] fix: remove the previous ticker index when an asset is
 updated

Querying the assets by their previous ticker returned the updated asset.
---
 x/assets/keeper/assets.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/assets/keeper/assets.go b/x/assets/keeper/assets.go
index c6e0afa..a6d6672 100644
--- a/x/assets/keeper/assets.go
+++ b/x/assets/keeper/assets.go
@@ -4,12 +4,25 @@ import (
 	"context"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/x/assets/types"
 )
 
 // SetAsset stores an asset in the store
 func (k *Keeper) SetAsset(ctx context.Context, asset types.Asset) error {
+	// Remove the ticker index of the asset that is being replaced, if any
+	previous, err := k.GetAsset(ctx, asset.Denom)
+	if err != nil && !errors.IsOf(err, collections.ErrNotFound) {
+		return err
+	}
+	if err == nil {
+		err = k.TickerIndexes.Remove(ctx, collections.Join(previous.Ticker, previous.Denom))
+		if err != nil {
+			return err
+		}
+	}
+
 	if err := k.Assets.Set(ctx, asset.Denom, asset); err != nil {
 		return err
 	}
-- 
2.43.0


From 8a59dd812d7d32dea540af32c76b15c39ee39e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 20/28] fix: apply the minimum stake to weighted votes and
 nested authz executions

---
 ante/gov_vote_ante.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index 0da4081..0cd1a69 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -67,11 +67,21 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err != nil {
 				return err
 			}
+		case *govv1beta1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		case *govv1.MsgVote:
 			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
 			if err != nil {
 				return err
 			}
+		case *govv1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		default:
 			// not a vote message - nothing to validate
 			return nil
@@ -114,12 +124,19 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 		return nil
 	}
 
-	validAuthz := func(execMsg *authz.MsgExec) error {
+	var validAuthz func(execMsg *authz.MsgExec) error
+	validAuthz = func(execMsg *authz.MsgExec) error {
 		for _, v := range execMsg.Msgs {
 			var innerMsg sdk.Msg
 			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
 				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
 			}
+			if innerExecMsg, ok := innerMsg.(*authz.MsgExec); ok {
+				if err := validAuthz(innerExecMsg); err != nil {
+					return err
+				}
+				continue
+			}
 			if err := validMsg(innerMsg); err != nil {
 				return err
 			}
-- 
2.43.0


From 9c659d71fd0b94de4a8feb16e9a5026114ad6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 21/28] fix: check expedited proposals submitted through authz

---
 ante/gov_expedited_ante.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/ante/gov_expedited_ante.go b/ante/gov_expedited_ante.go
index b6282aa..2b8e30a 100644
--- a/ante/gov_expedited_ante.go
+++ b/ante/gov_expedited_ante.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/cosmos/cosmos-sdk/x/authz"
 	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
 
 	milkywayerrors "github.com/milkyway-labs/milkyway/v3/types/errors"
@@ -39,19 +40,38 @@ func NewGovExpeditedProposalsDecorator(cdc codec.BinaryCodec) GovExpeditedPropos
 // Legacy proposals submitted using "milkywayd tx gov submit-legacy-proposal" cannot be marked as expedited.
 func (g GovExpeditedProposalsDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (newCtx sdk.Context, err error) {
 	if expeditedPropDecoratorEnabled {
-		for _, msg := range tx.GetMsgs() {
-			prop, ok := msg.(*govv1.MsgSubmitProposal)
-			if !ok {
+		if err := g.validateMsgs(tx.GetMsgs()); err != nil {
+			return ctx, err
+		}
+	}
+	return next(ctx, tx, simulate)
+}
+
+// validateMsgs checks the proposals contained inside the given messages, including the
+// ones that are executed through the authz module.
+func (g GovExpeditedProposalsDecorator) validateMsgs(msgs []sdk.Msg) error {
+	for _, m := range msgs {
+		switch msg := m.(type) {
+		case *authz.MsgExec:
+			innerMsgs := make([]sdk.Msg, len(msg.Msgs))
+			for i, v := range msg.Msgs {
+				if err := g.cdc.UnpackAny(v, &innerMsgs[i]); err != nil {
+					return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
+				}
+			}
+			if err := g.validateMsgs(innerMsgs); err != nil {
+				return err
+			}
+		case *govv1.MsgSubmitProposal:
+			if !msg.Expedited {
 				continue
 			}
-			if prop.Expedited {
-				if err := g.validateExpeditedGovProp(prop); err != nil {
-					return ctx, err
-				}
+			if err := g.validateExpeditedGovProp(msg); err != nil {
+				return err
 			}
 		}
 	}
-	return next(ctx, tx, simulate)
+	return nil
 }
 
 func (g GovExpeditedProposalsDecorator) isWhitelisted(msgType string) bool {
-- 
2.43.0


From 5eae349bbbf52c633108baceee65a6a6680befe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 22/28] fix: credit insurance deposits in the denom actually
 received

---
 x/liquidvesting/keeper/ibc.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index 3769463..8ab1d9b 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -63,16 +63,13 @@ func (k *Keeper) OnRecvPacket(
 		return fmt.Errorf("amount received is not equal to the amounts to deposit in the users' insurance fund")
 	}
 
+	// Get the denom of the tokens that will be received by the module
+	receivedDenom := getReceivedDenom(packet, data.Denom)
+
 	// Deposit the amounts into the users' insurance fund
 	for _, deposit := range msgDepositInsurance.Amounts {
-		// Convert the coin denom to its IBC representation
-		sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
-		// NOTE: sourcePrefix contains the trailing "/"
-		prefixedDenom := sourcePrefix + data.Denom
-		// construct the denomination trace from the full raw denomination
-		denomTrace := transfertypes.ParseDenomTrace(prefixedDenom)
-		// Convert the insurance deposit to its IBC representation
-		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
+		// Convert the insurance deposit to the denom received by the module
+		ibcCoin := sdk.NewCoin(receivedDenom, deposit.Amount)
 
 		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
 		if err != nil {
@@ -90,3 +87,17 @@ func (k *Keeper) OnRecvPacket(
 
 	return nil
 }
+
+// getReceivedDenom returns the denom that the tokens transferred with the given packet have on this chain
+func getReceivedDenom(packet channeltypes.Packet, denom string) string {
+	// If the tokens are coming back to this chain, remove the prefix added by the sender chain
+	if transfertypes.ReceiverChainIsSource(packet.GetSourcePort(), packet.GetSourceChannel(), denom) {
+		voucherPrefix := transfertypes.GetDenomPrefix(packet.GetSourcePort(), packet.GetSourceChannel())
+		return transfertypes.ParseDenomTrace(denom[len(voucherPrefix):]).IBCDenom()
+	}
+
+	// Otherwise, add the prefix of this chain
+	// NOTE: sourcePrefix contains the trailing "/"
+	sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
+	return transfertypes.ParseDenomTrace(sourcePrefix + denom).IBCDenom()
+}
-- 
2.43.0


From 40aa8e92ff6d1054bc9a866ed0dfc2094bf24602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 23/28] fix: pay the commission of deleted operators to their
 admin

---
 x/rewards/keeper/alias_functions.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/x/rewards/keeper/alias_functions.go b/x/rewards/keeper/alias_functions.go
index 568393b..d3b9307 100644
--- a/x/rewards/keeper/alias_functions.go
+++ b/x/rewards/keeper/alias_functions.go
@@ -69,7 +69,7 @@ func (k *Keeper) DeleteOperatorAccumulatedCommission(ctx context.Context, operat
 	return k.OperatorAccumulatedCommissions.Remove(ctx, operatorID)
 }
 
-// GetOperatorWithdrawAddr returns the outstanding rewards coins for an operator
+// GetOperatorWithdrawAddr returns the address to which the commission of the given operator should be sent
 func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operatorstypes.Operator) (sdk.AccAddress, error) {
 	// Try getting a custom withdraw address
 	operatorAddr, err := sdk.AccAddressFromBech32(operator.Address)
@@ -77,22 +77,22 @@ func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operators
 		return nil, err
 	}
 
-	withdrawAddr, err := k.GetDelegatorWithdrawAddr(ctx, operatorAddr)
-	if err != nil {
-		return nil, err
+	withdrawAddr, err := k.DelegatorWithdrawAddrs.Get(ctx, operatorAddr)
+	if err == nil {
+		return withdrawAddr, nil
 	}
 
-	if withdrawAddr != nil {
-		return withdrawAddr, nil
+	if !errors.IsOf(err, collections.ErrNotFound) {
+		return nil, err
 	}
 
-	// By default, use the operator admin address as the withdraw address
+	// By default, use the withdraw address of the operator admin
 	adminAddress, err := sdk.AccAddressFromBech32(operator.Admin)
 	if err != nil {
 		return nil, err
 	}
 
-	return adminAddress, nil
+	return k.GetDelegatorWithdrawAddr(ctx, adminAddress)
 }
 
 // GetDelegatorWithdrawAddr returns the delegator's withdraw address if set, otherwise the delegator address is returned.
-- 
2.43.0


From d5a63d0dd0b25fed77de720ee008287f9e1855c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 24/28] fix: do not let a rewards plan halt the chain

---
 x/rewards/keeper/allocation.go   |  7 +++----
 x/rewards/keeper/rewards_plan.go | 27 +++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index ce9d671..66e9ddf 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -154,10 +154,9 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 			}
 		}
 
-		err = k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
-		if err != nil {
-			return false, err
-		}
+		k.applyPlanFuncIfNoError(ctx, plan, func(ctx context.Context) error {
+			return k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
+		})
 
 		return false, nil
 	})
diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 83fba4d..6e39a2b 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -175,6 +175,26 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 	return nil
 }
 
+// applyPlanFuncIfNoError runs the given function on the provided plan, and commits its changes only if it succeeds.
+// Since plans are created by users and processed at the beginning of each block, a plan that cannot be processed
+// (e.g. because its amounts overflow) must affect neither the other plans nor the block.
+func (k *Keeper) applyPlanFuncIfNoError(ctx context.Context, plan types.RewardsPlan, f func(ctx context.Context) error) {
+	logger := k.Logger(ctx)
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Error("panic while processing rewards plan", "plan_id", plan.ID, "panic", r)
+		}
+	}()
+
+	cacheCtx, write := sdk.UnwrapSDKContext(ctx).CacheContext()
+	err := f(cacheCtx)
+	if err != nil {
+		logger.Error("failed to process rewards plan", "plan_id", plan.ID, "error", err)
+		return
+	}
+	write()
+}
+
 // TerminateEndedRewardsPlans terminates all rewards plans that have ended.
 func (k *Keeper) TerminateEndedRewardsPlans(ctx context.Context) error {
 	// Get the current block time
@@ -185,10 +205,9 @@ func (k *Keeper) TerminateEndedRewardsPlans(ctx context.Context) error {
 	return k.RewardsPlans.Walk(ctx, nil, func(planID uint64, plan types.RewardsPlan) (stop bool, err error) {
 		// If the plan has already ended, terminate it
 		if !blockTime.Before(plan.EndTime) {
-			err = k.terminateRewardsPlan(ctx, plan)
-			if err != nil {
-				return false, err
-			}
+			k.applyPlanFuncIfNoError(ctx, plan, func(ctx context.Context) error {
+				return k.terminateRewardsPlan(ctx, plan)
+			})
 		}
 		return false, nil
 	})
-- 
2.43.0


From 2fbbb0ec357100aed3bda277d29f1e2e265e2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 25/28] fix: unbonding delegation queries return only the
 unbondings of the requested target

---
 x/restaking/keeper/grpc_query.go | 39 ++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 7c63b28..35c38eb 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -254,13 +254,18 @@ func (k Querier) PoolUnbondingDelegations(ctx context.Context, req *types.QueryP
 
 	// Query the pool unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		if unbond.TargetID != req.PoolId {
+			return false, nil
+		}
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
@@ -393,13 +398,18 @@ func (k Querier) OperatorUnbondingDelegations(ctx context.Context, req *types.Qu
 
 	// Query the operator unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		if unbond.TargetID != req.OperatorId {
+			return false, nil
+		}
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
@@ -532,13 +542,18 @@ func (k Querier) ServiceUnbondingDelegations(ctx context.Context, req *types.Que
 
 	// Query the service unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		if unbond.TargetID != req.ServiceId {
+			return false, nil
+		}
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
-- 
2.43.0


From 0946bd97767041c25245999127c2b5bfa0173d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 26/28] fix: ServiceOperators query swaps operator and service
 when filtering by the allowlist

---
 x/restaking/keeper/grpc_query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 35c38eb..771db1e 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -140,7 +140,7 @@ func (k Querier) ServiceOperators(ctx context.Context, req *types.QueryServiceOp
 			// Here is k2 the operator id since the Service index provides association
 			// between a service and the operator securing it
 			operatorID := key.K2()
-			return k.CanOperatorValidateService(ctx, operatorID, req.ServiceId)
+			return k.CanOperatorValidateService(ctx, req.ServiceId, operatorID)
 		},
 		func(key collections.Pair[uint32, uint32], _ collections.NoValue) (operatorstypes.Operator, error) {
 			// Here is k2 the operator id since the Service index provides association
-- 
2.43.0


From 71eecb36cbe170f19afe92546c7a6a584457786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 27/28] fix: do not leave the historical rewards of the
 creation hooks behind after importing the genesis

---
 x/rewards/keeper/genesis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index af6b170..7658596 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -360,6 +360,15 @@ func (k *Keeper) initializeDelegationRecords(
 		totalOutstandingRewards = totalOutstandingRewards.Add(outstanding.OutstandingRewards.Sum()...)
 	}
 
+	// Remove the historical rewards that the hooks created while the targets of
+	// the imported records were being initialized by their own modules
+	for _, current := range records.CurrentRewards {
+		err = historicalRewardsCollection.Clear(ctx, collections.NewPrefixedPairRange[uint32, uint64](current.DelegationTargetID))
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// Store the historical rewards
 	for _, historical := range records.HistoricalRewards {
 		err = historicalRewardsCollection.Set(ctx, collections.Join(historical.DelegationTargetID, historical.Period), historical.Rewards)
-- 
2.43.0


From ef5c62b1953f7a07920477ab053e73df432a467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:25 +0000
Subject: [PATCH 28/28] fix: import the liquid vesting genesis when the module
 holds more than the insurance deposits

---
 x/liquidvesting/keeper/genesis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index cc39266..98f7022 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -72,13 +72,14 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		}
 	}
 
-	// Ensure that the balance of the liquid vesting module is equal to the
-	// sum of the users' insurance fund
+	// Ensure that the balance of the liquid vesting module covers the sum of
+	// the users' insurance fund. It can be greater, since anyone can send coins
+	// to the module
 	coins, err := k.GetInsuranceFundBalance(ctx)
 	if err != nil {
 		return err
 	}
-	if !coins.Equal(totalCoins) {
+	if !coins.IsAllGTE(totalCoins) {
 		return fmt.Errorf("the liquid vesting module doesn't have the coins specified in the users' insurance fund")
 	}
 
-- 
2.43.0

