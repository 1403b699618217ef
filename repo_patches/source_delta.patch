From b399f1241526195fc56b82e380a58974e6a55889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH] fix: report malformed account blocks instead of returning
 them half-filled

AccountBlock.Deserialize dropped the error of DeProto, so bytes with a
missing or malformed address, hash or token id were accepted as a block
whose remaining fields were silently left at their zero values.
SnapshotBlock.Deserialize already returns that error.
---
 interfaces/core/account_block.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 93b08a9..87644da 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -411,8 +411,7 @@ func (ab *AccountBlock) Deserialize(buf []byte) error {
 	if err := proto.Unmarshal(buf, pb); err != nil {
 		return err
 	}
-	ab.DeProto(pb)
-	return nil
+	return ab.DeProto(pb)
 }
 
 func (ab *AccountBlock) IsSendBlock() bool {
-- 
2.43.0

