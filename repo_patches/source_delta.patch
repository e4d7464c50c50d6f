From d9ce3a01ad46e2facb4f205ac6e18485421099d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/96] fix: alignment printout read before the filler string
 for words longer than 40 characters

---
 src/sclite/path.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 13fab30..8300a84 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -201,7 +201,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 0: {
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + (lenb < alen ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -238,7 +238,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 4: {	
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + (lena < alen ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
@@ -468,7 +468,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 0: {
 		      sprintf(fmt,"<TD>%%-%ds</TD>",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + (lenb < alen ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -501,7 +501,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 4: {	
 		      sprintf(fmt,"<TD>%%s</TD>");
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + (lena < alen ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
-- 
2.43.0


From fd5cfaff03ff93f920c8deefc08aa22777a4bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:27 +0000
Subject: [PATCH 02/96] fix: alignment printout looped forever when a word did
 not fit in the line width

---
 src/sclite/path.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 8300a84..5f8c59a 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -134,6 +134,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	if (endpass <= used) endpass = used + 1; /* always print at least one word */
 
 	for (line=0; line<11; line++){
 	    switch(line) {
@@ -387,6 +388,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	if (endpass <= used) endpass = used + 1; /* always print at least one word */
 
 	fprintf(fp,"<TABLE CELLSPACING=0 CELLPADDING=1>\n");
 
-- 
2.43.0


From b40e3f6d569d5d606cbfd047fc0e982f8817404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:51 +0000
Subject: [PATCH 03/96] fix: summary mean/S.D./median dropped the wrong
 speakers when several had no reference words

---
 src/sclite/scores.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 01e194c..6610a22 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1381,23 +1381,17 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
 
     /* added by Brett to compute mean, variance, and standard dev */
     if (Zero_spkr > 0) {
-      /* remove any speakers data if word_num_arr[spkr] is 0 */
+      /* remove any speakers data if word_num_arr[spkr] is 0, by keeping */
+      /* the data of the other speakers at the front of the arrays */
+      int kept = 0;
       for (spkr=0; spkr<sc->num_grp; spkr++){
-	if (word_num_arr[spkr] == 0) {
-	  int s2;
-	  /* shift up the speakers data to fill this one */
-	  for (s2=spkr; s2 < sc->num_grp-1; s2++){
-	    corr_arr[s2] = corr_arr[s2+1];
-	    sub_arr[s2]  = sub_arr[s2+1];
-	    ins_arr[s2]  = ins_arr[s2+1];
-	    del_arr[s2]  = del_arr[s2+1];
-	    err_arr[s2]  = err_arr[s2+1];
-	  }
-	  corr_arr[sc->num_grp-1] =  -1000.0;
-	  sub_arr[sc->num_grp-1]  =  -1000.0;
-	  ins_arr[sc->num_grp-1]  =  -1000.0;
-	  del_arr[sc->num_grp-1]  =  -1000.0;
-	  err_arr[sc->num_grp-1]  =  -1000.0;
+	if (word_num_arr[spkr] != 0) {
+	  corr_arr[kept] = corr_arr[spkr];
+	  sub_arr[kept]  = sub_arr[spkr];
+	  ins_arr[kept]  = ins_arr[spkr];
+	  del_arr[kept]  = del_arr[spkr];
+	  err_arr[kept]  = err_arr[spkr];
+	  kept++;
 	}
       }
     }
-- 
2.43.0


From abc8c473975756a920b9d809294d03020875fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:32 +0000
Subject: [PATCH 04/96] fix: the last trn record was silently not scored when
 its line had no newline

---
 src/sclite/align.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 08c5de3..ab1ac8b 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -83,6 +83,14 @@ int extract_speaker(TEXT *id, TEXT *sname, enum id_types idt){
     }
 }
 
+/* TRUE if the last read left no record to process: a final record may come */
+/* without a newline, in which case EOF is reached while reading it */
+static int no_more_records(SCORES *sc, TEXT *buf, FILE *fp){
+    return(feof(fp) && (parse_input_comment_line(sc,buf) ||
+			TEXT_is_comment_info(buf) ||
+			TEXT_is_empty(buf)));
+}
+
 /* free the reference transcripts */
 void free_refs(TEXT ***rset, TEXT ***ref_id, int refcnt){
     free_2dimarr((*rset),refcnt,TEXT); 
@@ -116,7 +124,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = NULL_TEXT;
 	}
-	if (!feof(fp)){
+	if (!no_more_records(sc,in_buf,fp)){
 	    if (!case_sense)
 		TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	    remove_id(in_buf,&id_buf,&id_buf_len);
@@ -157,7 +165,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = '\0';
 	}
-        if (feof(fp))
+        if (no_more_records(sc,in_buf,fp))
             break;
 
 	if (!case_sense)
@@ -555,7 +563,7 @@ SCORES *align_trans_mode_dp(char *ref_file, char *hyp_file, char *set_title, int
                                  TEXT_is_empty(hyp_buff)))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
-        if (feof(fp_hyp))
+        if (no_more_records(scor,hyp_buff,fp_hyp))
             break;
 
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
@@ -826,7 +834,7 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))
+        if (no_more_records(sc,hyp_buff,fp_hyp))
             break;
 
 	(*num_hyp) ++;
@@ -1006,7 +1014,7 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))  break;
+        if (no_more_records(scor,hyp_buff,fp_hyp))  break;
 	if (!case_sense)    TEXT_str_case_change_with_mem_expand(&hyp_buff, &hyp_buff_len, 1);
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
 	extract_speaker(hyp_id,spkr_id,idt);
-- 
2.43.0


From f3ce0c638f17f383fbbd57481188d8f1862ba618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:32 +0000
Subject: [PATCH 05/96] fix: two different references for one id were accepted
 when the second was a prefix of the first

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index ab1ac8b..aa2d9eb 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -177,7 +177,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
 				    bsearch_TEXT_strcmp)) != NULL){
 	    rind = ind - idset;
 	    if (refset[rind] != (TEXT *)0){
-		if (TEXT_strBcmp(in_buf,refset[rind],TEXT_strlen(in_buf))!= 0){
+		if (TEXT_strcmp(in_buf,refset[rind])!= 0){
 		    fprintf(stderr,"Error: double reference text for id '%s'\n",
 			    id_buf);
 		    failure=1;
-- 
2.43.0


From eacc097efdf9e672c08e6c4a62c1f936bd93472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:32 +0000
Subject: [PATCH 06/96] fix: the list of utterances without a reference left
 some of them out

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index aa2d9eb..3806f17 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -193,7 +193,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
     if (num_ref != num_ids){
 	failure=1;
 	fprintf(stderr,"Error: Not enough Reference files loaded\nMissing:\n");
-	for (i=0; i<num_ref; i++)
+	for (i=0; i<num_ids; i++)
 	    if (refset[i] == (TEXT *)0)
 	      fprintf(stderr,"    %s\n",idset[i]);
     }
-- 
2.43.0


From b913a95be85e6f5ce2cbe5032e7ccddb7d0a25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:09 +0000
Subject: [PATCH 07/96] fix: an unterminated blank or comment line at the end
 of an stm file was parsed as a segment

---
 src/sclite/stm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index c96de43..5d295fa 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -40,6 +40,10 @@ void read_stm_line(TEXT **buf, int *len, FILE *fp){
 	if (TEXT_ensure_fgets(buf, len, fp) == NULL)
 	    **buf = '\0';
     }
+    /* an unterminated last line may be a comment or blank too */
+    if (TEXT_is_comment(*buf) || TEXT_is_comment_info(*buf) ||
+	TEXT_is_empty(*buf))
+	**buf = '\0';
 }
 
 
-- 
2.43.0


From bd86343e52def0b7e3906b5453f2f0856ae4cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:09 +0000
Subject: [PATCH 08/96] fix: hypothesis words after a reduced (-m hyp)
 alternation were scored as a new alternation

---
 src/sclite/stm2ctm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 1ca29ef..c2abeaa 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -98,6 +98,9 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 		      TEXT_strcasecmp((TEXT *)"<ALT_END>",
 				      hyp_segs->word[yy].sp) != 0); yy++)
 		    hyp_segs->word[yy].ignore= (usable > 0) ? FALSE : TRUE;
+		/* the closing <ALT_END> goes with its alternation */
+		if (yy <= h_end)
+		    hyp_segs->word[yy].ignore= (usable > 0) ? FALSE : TRUE;
 	    }
 	}
 	for (xx = h_st; xx <= h_end; xx++)
-- 
2.43.0


From df2c23fa9f1b3610075e4c0e59173fbc67bbf10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:34 +0000
Subject: [PATCH 09/96] fix: -m ref dropped segments when a channel's
 hypothesis began or ended with an alternation

---
 src/sclite/stm2ctm.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index c2abeaa..ed540f1 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -37,10 +37,18 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 	/* search the stm structure, marking the segments that end */
 	/* before the first hyp words, or begin after the last hyp */
 	/* word by setting the segments "flag1" variable */
+	/* alternation markers have no times, so skip over them */
+	int h_first = h_st, h_last = h_end;
+	while (h_first <= h_last &&
+	       TEXT_strCcasecmp((TEXT *)"<ALT",hyp_segs->word[h_first].sp,4) == 0)
+	    h_first++;
+	while (h_first <= h_last &&
+	       TEXT_strCcasecmp((TEXT *)"<ALT",hyp_segs->word[h_last].sp,4) == 0)
+	    h_last--;
 	for (rs=r_st; rs<stm->num && rs<=r_end; rs++){
-	    if (h_end >= h_st)
-		if ((hyp_segs->word[h_st].t1 >= stm->seg[rs].t2) ||
-		    (hyp_segs->word[h_end].t1+hyp_segs->word[h_end].dur <=
+	    if (h_last >= h_first)
+		if ((hyp_segs->word[h_first].t1 >= stm->seg[rs].t2) ||
+		    (hyp_segs->word[h_last].t1+hyp_segs->word[h_last].dur <=
 		     stm->seg[rs].t1))
 		    stm->seg[rs].flag1 = 0;
 	    if (feedback >= 10){
-- 
2.43.0


From db3dbf8f36671195f71beb0e5519dde09025c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:56 +0000
Subject: [PATCH 10/96] fix: an empty ctm alternative that was not the last one
 swallowed the next alternative's first word

---
 src/sclite/net_adt.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 9cb76ac..fa2addf 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -674,7 +674,7 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
     for (i=start; (i<=wt->n)&&(i<=end); i++){
 	if ((!wt->word[i].ignore) && wt->word[i].alternate) {
 	    NETWORK *alt_net, *alt_net_out=NULL_NETWORK;
-	    int first_alt=1, acnt;
+	    int first_alt=1, acnt, more_alts;
 
 	    /* skip the ALT_BEGIN */
 	    for (; (i<=wt->n) && (i<=end) &&
@@ -726,7 +726,6 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 			fprintf(stderr,"failed in %s\n",proc);
 			return(NULL_NETWORK);
 		    }
-		    i++;
 		}
 		if (first_alt)
 		    alt_net_out = alt_net;
@@ -736,13 +735,13 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 					  alt_net_out->stop_node,alt_net);
 		}
 	        first_alt = 0;
-		if (TEXT_strcasecmp((TEXT*)"<ALT>",wt->word[i].sp) == 0 &&
-		    TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i+1].sp) == 0)
-		    ;
-		else if (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!=0)
+		/* an <ALT> is always followed by an alternative, maybe empty */
+		more_alts = ((i<=wt->n) && (i<=end) &&
+			     (TEXT_strcasecmp((TEXT*)"<ALT_END>",
+					      wt->word[i].sp)!= 0));
+		if (more_alts)
 		    i++;
-	    } while ((i<=wt->n) && (i<=end) &&
-		     (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!= 0));
+	    } while (more_alts);
 
 	    if (alt_net_out == (NETWORK *)0){
 		fprintf(stderr,"Error: %s failed to produce a network for "
-- 
2.43.0


From 496b997b020ea5fab9a3582f9963eca3a77af1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:30 +0000
Subject: [PATCH 11/96] fix: ctm words left over after a channel's reference
 ended were credited to the next channel

---
 src/sclite/ctm2ctm.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 2fe74b6..9ca80b7 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -160,6 +160,9 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	/* Side A */
 	for (i=0; i<number_of_channels; i++){
 	    int base_len;
+	    /* the ref words may run out before the hyp's, so the channel */
+	    /* is identified by its first ref word */
+	    int ref_chan_begin;
 	    chunk = 0;	    
 	    if (i==0){
 		ref_end = ref_end_chan1;
@@ -182,6 +185,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		ref_opp_begin = ref->s;
 		hyp_opp_begin = hyp->s;
 	    }
+	    ref_chan_begin = ref_begin;
 	    if (dbg > 5){
 		printf("Starting channel %d\n",i);
 		printf("Ref Range: %d - %d\n",ref_begin,ref_end);
@@ -202,13 +206,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		removals = 0;
 
 		/* create the utterance ID */
-		sprintf(uttid,"(%s-%s-%04d)",ref->word[ref_begin].conv,
-			ref->word[ref_begin].turn,chunk);
+		sprintf(uttid,"(%s-%s-%04d)",ref->word[ref_chan_begin].conv,
+			ref->word[ref_chan_begin].turn,chunk);
 
 		spkr = SCORES_get_grp(scor,
 				      rsprintf("%s-%s",
-					       ref->word[ref_begin].conv,
-					       ref->word[ref_begin].turn));
+					       ref->word[ref_chan_begin].conv,
+					       ref->word[ref_chan_begin].turn));
 
 		if (dbg > 5){
 		    printf("Chunk %d: Starting for channel %d  id=%s",
@@ -266,8 +270,8 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		}
 
 		add_PATH_score(scor,path,spkr, keep_path);
-		PATH_add_file(path,ref->word[ref_begin].conv);
-		PATH_add_channel(path,ref->word[ref_begin].turn);
+		PATH_add_file(path,ref->word[ref_chan_begin].conv);
+		PATH_add_channel(path,ref->word[ref_chan_begin].turn);
 		/* PATH_add_label(path,(char *)stm->seg[rs].labels); */
 	
 		ref_begin = ref_chop_end+1;
-- 
2.43.0


From 08f6f132cc7ecf4be263203ae18524aed956e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:30 +0000
Subject: [PATCH 12/96] fix: a one-word second channel at the end of a ctm file
 was silently not scored

---
 src/sclite/ctm2ctm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 9ca80b7..fe7030d 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -96,12 +96,12 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 
 	number_of_channels = 1;
 	hyp_end_chan2 = ref_end_chan2 = -1;
-	if (ref_end_chan1+1 < ref->n &&
+	if (ref_end_chan1+1 <= ref->n &&
 	    strcmp(ref->word[ref->s].conv,ref->word[ref_end_chan1+1].conv)==0){
 	    locate_boundary(ref, ref_end_chan1+1, TRUE, TRUE, &ref_end_chan2);
 	    number_of_channels = 2;
 	}
-	if (hyp_end_chan1+1 < hyp->n &&
+	if (hyp_end_chan1+1 <= hyp->n &&
 	    strcmp(hyp->word[hyp->s].conv,hyp->word[hyp_end_chan1+1].conv)==0){
 	    locate_boundary(hyp, hyp_end_chan1+1, TRUE, TRUE, &hyp_end_chan2);
 	    number_of_channels = 2;
-- 
2.43.0


From 3ad4c581b2e2fa132134f031c1ae181eaddd4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:30 +0000
Subject: [PATCH 13/96] fix: a ctm file missing a last one-word conversation
 was not detected

---
 src/sclite/ctm2ctm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index fe7030d..5f59966 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -64,13 +64,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	fill_WTOKE_structure(hyp, fp_hyp, hyp_file, &hyp_eof, case_sense);
 	fill_WTOKE_structure(ref, fp_ref, ref_file, &ref_eof, case_sense);
 	
-	if ((hyp->n < hyp->s) && (ref->n > ref->s)) {
+	if ((hyp->n < hyp->s) && (ref->n >= ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in hyp file '%s' at conv"
 		  "ersation '%s' of ref file '%s'\n",hyp_file,
 		  ref->word[ref->s].conv,ref_file);
 	  exit(1);
 	}
-	if ((hyp->n > hyp->s) && (ref->n < ref->s)) {
+	if ((hyp->n >= hyp->s) && (ref->n < ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in ref file '%s' at conv"
 		  "ersation '%s' of hyp file '%s'\n",ref_file,
 		  hyp->word[hyp->s].conv,hyp_file);
-- 
2.43.0


From 25eb88cc72f0a19af024ea39ffb59368d3c5fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:47 +0000
Subject: [PATCH 14/96] fix: time-mediated alignment could substitute a null
 word for a word that begins at time 0

---
 src/sclite/word.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/word.c b/src/sclite/word.c
index f4aadf8..49467ab 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -122,6 +122,11 @@ float wwd_time_WORD(void *p1, void *p2, int (*cmp)(void *p1, void *p2)){
 	return 0.001;
     if (w1 == NULL_WORD)	return w2->T_dur;
     if (w2 == NULL_WORD) 	return w1->T_dur;
+    /* a "@" has no times: aligning it with a word must cost more than */
+    /* skipping both */
+    if (TEXT_strcmp(w1->value, (TEXT *)"@") == 0 ||
+	TEXT_strcmp(w2->value, (TEXT *)"@") == 0)
+	return w1->T_dur + w2->T_dur + 0.003;
     /* no difference between correct and substituted */
     return (fabs(w1->T1 - w2->T1) + fabs(w1->T2 - w2->T2) +
 	    ((cmp(p1,p2) == 0) ? 0.000 : 0.001));
-- 
2.43.0


From 6b0b2ff839518dca691a469c18ecc5f691179f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:45 +0000
Subject: [PATCH 15/96] fix: SGML alignments made with a word-weight file could
 not be read back

---
 src/sclite/scores.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 6610a22..c52b2da 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -164,7 +164,14 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     fprintf(fp," frag_corr=\"%s\"", sc->frag_corr ? "TRUE" : "FALSE");
     fprintf(fp," opt_del=\"%s\"", sc->opt_del ? "TRUE" : "FALSE");
     fprintf(fp," weight_ali=\"%s\"", sc->weight_ali ? "TRUE" : "FALSE");
-    fprintf(fp," weight_filename=\"%s\"", sc->weight_ali ? sc->weight_file : "");
+    fprintf(fp," weight_filename=\"");
+    if (sc->weight_ali)
+	for (p=0; sc->weight_file[p] != '\0'; p++){
+	    /* the name may hold quotes, which would end the attribute */
+	    if (sc->weight_file[p] == '"') fprintf(fp,"&quot;");
+	    else fputc(sc->weight_file[p],fp);
+	}
+    fprintf(fp,"\"");
     fprintf(fp,">\n");
 
     for (i=0; i<sc->aset.num_plab; i++)
@@ -340,7 +347,7 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 {
-    char *proc="load_SCORES_sgml", *msg;
+    char *proc="load_SCORES_sgml", *msg, *quot;
     int buf_len=100;
     TEXT *buf, *token;
     SGML sg;
@@ -409,6 +416,10 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 		  sga = get_SGML_attrib(&sg,sg.num_tags-1,
 					(TEXT *)"weight_filename");
 		  tscor->weight_file = (char *)TEXT_strdup(sga);
+		  while ((quot = strstr(tscor->weight_file,"&quot;")) != NULL){
+		    *quot = '"';
+		    memmove(quot+1,quot+6,strlen(quot+6)+1);
+		  }
 		} else
 		  tscor->weight_ali = FALSE;
 		
-- 
2.43.0


From b4cea36d6b4cc808f2cf9eacff0afdaa790b84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 16/96] fix: summary reports crashed when no segment was scored

---
 src/sclite/statdist.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 3a34163..a780315 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -596,6 +596,11 @@ void calc_mean_var_std_dev_Zstat(int *Z_list, int num_Z, double *mean, double *v
     int i;
     double tmp = 0.0;
 
+    if (num_Z == 0){
+	*mean = *median = *variance = *std_dev = *Z_stat = 0.0;
+	return;
+    }
+
     for (i=0;i<num_Z;i++){
        tmp+=Z_list[i];
     }
-- 
2.43.0


From 95031febd81b7893907ebe66ca08fd42e1599792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:15 +0000
Subject: [PATCH 17/96] fix: character alignment of optionally deletable words
 inside alternations never ended

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 3806f17..1a0ca21 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -704,7 +704,7 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 //    printf("   and escaped /%s/\n", charsEsc);
     
     /* Fix, it wasn't enough check to see if the there were any spaces */
-    if (TEXT_strcmp(chars,tw->value) != 0){
+    if (TEXT_strcmp(chars,(!tw->opt_del) ? tw->value : tw->intern_value) != 0){
 	subnet = Network_create_from_TEXT(charsEsc, buf, arc->net->arc_func.print,
 					  arc->net->arc_func.equal,
 					  arc->net->arc_func.destroy,
-- 
2.43.0


From ae486b6e343204898368e238a3eb3c2c93a21c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:44 +0000
Subject: [PATCH 18/96] fix: weight-mediated alignment could substitute a null
 word for a word

---
 src/sclite/word.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/word.c b/src/sclite/word.c
index 49467ab..568e11b 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -147,6 +147,11 @@ float wwd_weight_WORD(void *p1, void *p2, int (*cmp)(void *p1, void *p2)){
     if (w1 == NULL_WORD)	return w2->weight;
     if (w2 == NULL_WORD) 	return w1->weight;
 
+    /* aligning a "@" with a word must cost more than skipping both */
+    if (TEXT_strcmp(w1->value, (TEXT *)"@") == 0 ||
+	TEXT_strcmp(w2->value, (TEXT *)"@") == 0)
+	return w1->weight + w2->weight + 0.003;
+
     /* Add the extra cost for a substitution */
     /*     return (fabs(w1->weight - w2->weight) 
 	    + ((cmp(p1,p2) == 0) ? 0.000 : 0.001)); */
-- 
2.43.0


From 451c6a56257ce9f5b7e040b43d982d7965eab467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:56 +0000
Subject: [PATCH 19/96] fix: character alignment with DH crashed on words made
 of hyphens only

---
 src/sclite/align.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 1a0ca21..9330a97 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -681,10 +681,12 @@ void expand_words_to_chars(ARC *arc, void *ptr){
     NETWORK *subnet;
     char buf[20];
     static int alt=1;
+    int empty;
 
     if (chars == (TEXT *)0) alloc_singZ(chars,chars_len,TEXT,'\0');
     /* it the string is already a single letter, return */
-    if (TEXT_strlen(tw->value) <= 1)
+    if (TEXT_strlen(tw->value) <= 1 &&
+	!((*((int *)ptr) & CALI_DELHYPHEN) && *(tw->value) == '-'))
 	return;
 
     if (db >= 5) {
@@ -695,6 +697,9 @@ void expand_words_to_chars(ARC *arc, void *ptr){
     sprintf(buf,"expand-net %d",alt);
     TEXT_separate_chars((!tw->opt_del) ? tw->value : tw->intern_value,
 			&chars,&chars_len,*((int *)ptr));
+    /* nothing is left of a word made of deleted hyphens: a null word */
+    empty = (*chars == NULL_TEXT);
+    if (empty) TEXT_strcpy(chars,(TEXT *)"@");
 			
 //    printf("   from /%s/ comes /%s/\n",(!tw->opt_del) ? tw->value : tw->intern_value, chars);
     
@@ -722,7 +727,7 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 	/* durations based on the original word */
 	{  
 	  double dur = tw->T_dur/subnet->arc_count, t1 = tw->T1, conf = tw->conf;
-	  int od = tw->opt_del;
+	  int od = tw->opt_del && !empty;
 	  Network_traverse(subnet,NULL,0,set_word_duration,&dur,0);
 	  Network_traverse(subnet,NULL,0,set_word_start,&t1,0);
 	  Network_traverse(subnet,NULL,0,set_word_conf,&conf,0);
-- 
2.43.0


From 35feb66c39b2e11c2805c02c3ab70600e57088f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:09 +0000
Subject: [PATCH 20/96] fix: -S algo2 compared words case sensitively although
 -s was not given

---
 src/sclite/align.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 9330a97..3dc82ad 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -244,8 +244,8 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     }
 
     {
-        TEXT *refCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
-        if ((refnet = Network_create_from_TEXT(ref, "Reference Net",
+        TEXT *refCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
+        if ((refnet = Network_create_from_TEXT(refCC, "Reference Net",
 					   print_WORD,
 					   equal_WORD2,
 					   release_WORD, null_alt_WORD,
@@ -256,14 +256,14 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
             fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
         }
-        if (case_sense){
+        if (! case_sense){
             free_singarr(refCC, TEXT);
         }
     }
     
     if (hyp != (TEXT *)0){
-	TEXT *hypCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
-	if ((hypnet = Network_create_from_TEXT(hyp,"Hypothesis Net",
+	TEXT *hypCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
+	if ((hypnet = Network_create_from_TEXT(hypCC,"Hypothesis Net",
 					       print_WORD,
 					       equal_WORD2,
 					       release_WORD, null_alt_WORD,
@@ -274,7 +274,7 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
 	}
-        if (case_sense){
+        if (! case_sense){
            free_singarr(hypCC, TEXT);
         }
     } else 
-- 
2.43.0


From 641a2172f7f6afce7a1238d882ba527e26dfbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:22 +0000
Subject: [PATCH 21/96] fix: -d could not score a second ctm channel made of
 one word at the end of the file

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 3dc82ad..7f609d5 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1167,7 +1167,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 
 	/* find the end of the second channel for the hyp file */
 	locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hyp_end_chan1);
-	if (hyp_end_chan1+1 < hyp_segs->n &&
+	if (hyp_end_chan1+1 <= hyp_segs->n &&
             strcmp(hyp_segs->word[hyp_segs->s].conv,
 		   hyp_segs->word[hyp_end_chan1+1].conv)==0){
             locate_WTOKE_boundary(hyp_segs,hyp_end_chan1+1,1,1,&hyp_end_chan2);
-- 
2.43.0


From c08d8811db5e2578794c27e0ec329df66129e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:29 +0000
Subject: [PATCH 22/96] fix: -d dropped hypothesis words after the last
 reference word of the last ctm channel

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 7f609d5..f3e9aef 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1272,7 +1272,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 			process_diff_line(diff_out,path,&firsttoken);
 		    } while (!feof(fp_diff) && 
 			     ((TEXT_strcmp(firsttoken,ctext) != 0) ||
-			      r== r_end + (r_end==stm->num)?-1:0));
+			      r == r_end + ((r_end==stm->num)?-1:0)));
 		    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 		}
 		spkr = SCORES_get_grp(scor,(char *)stm->seg[r].spkr);
-- 
2.43.0


From e33849a86503cfda183b8402160a1af8f61696d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:13 +0000
Subject: [PATCH 23/96] fix: -d dropped hypothesis words when the last record's
 reference was empty

---
 src/sclite/align.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index f3e9aef..ba1b650 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -943,6 +943,15 @@ void process_diff_line(TEXT *diff_out, PATH *path, TEXT **firsttoken){
     path->num++;
 }
 
+/* add the rest of the diff output to the path of the last record */
+static void process_diff_rest(FILE *fp_diff, TEXT **diff_out, int *diff_out_len, PATH *path){
+    TEXT *firsttoken;
+
+    while (!feof(fp_diff) &&
+	   TEXT_ensure_fgets(diff_out,diff_out_len,fp_diff) != NULL)
+	process_diff_line(*diff_out,path,&firsttoken);
+}
+
 void set_temp_files(char *refwords, char *hypwords){
     int pid = getpid();
     int max=30, n=0, fail;
@@ -1052,6 +1061,8 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
 		     ((TEXT_strcmp(firsttoken,ctext) != 0) || num_hyp==0));
 	    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 	}
+	if (num_hyp == 0)
+	    process_diff_rest(fp_diff,&diff_out,&diff_out_len,path);
 
 	PATH_add_utt_id(path,(char *)hyp_id);
 	PATH_set_sequence(path);
@@ -1275,6 +1286,8 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 			      r == r_end + ((r_end==stm->num)?-1:0)));
 		    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 		}
+		if (r == r_end + ((r_end==stm->num)?-1:0))
+		    process_diff_rest(fp_diff,&diff_out,&diff_out_len,path);
 		spkr = SCORES_get_grp(scor,(char *)stm->seg[r].spkr);
 		PATH_add_utt_id(path,rsprintf("(%s-%03d)",stm->seg[r].spkr,
 					      scor->grp[spkr].nsent));
@@ -1424,6 +1437,8 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
 		     ((TEXT_strcmp(firsttoken,ctext) != 0) || num_ref==0));
 	    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 	}
+	if (num_ref == 0)
+	    process_diff_rest(fp_diff,&diff_out,&diff_out_len,path);
 
 	spkr = SCORES_get_grp(scor,(char *)ref_seg.spkr);
 	PATH_add_utt_id(path,rsprintf("(%s-%03d)",ref_seg.spkr,
-- 
2.43.0


From ea3cadae2b4bbb5d1fc57015cd663f47cfab632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:49 +0000
Subject: [PATCH 24/96] fix: scoring an stm against a txt file dropped an
 unterminated last stm line

---
 src/sclite/align.c | 2 +-
 src/sclite/stm.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index ba1b650..5c50ee6 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1416,7 +1416,7 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
     while (!feof(fp_ref)){
 	/* read the next ref line */
 	read_stm_line(&ref_buf,&ref_buf_len,fp_ref);
-	if (feof(fp_ref)) break;
+	if (*ref_buf == '\0') break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&ref_seg, &ref_buf, &ref_buf_len, case_sense, 0);
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index 5d295fa..b0afbf5 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -236,7 +236,7 @@ void convert_stm_to_word_list(char *file, char *words, int case_sense, int *num_
     while (!feof(fp)){
 	/* read the next ref line */
 	read_stm_line(&buf,&buf_len,fp);
-	if (feof(fp)) break;
+	if (*buf == '\0') break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&seg,&buf,&buf_len,case_sense,0);
-- 
2.43.0


From f2a71a0c000b785f1f6a658a8307ffdf849391b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:43 +0000
Subject: [PATCH 25/96] fix: the DET curve crashed when all or none of the
 words were correct

---
 src/sclite/det.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index d31515c..6968246 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -95,7 +95,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       }
       
       /* allocate the DET table */
-      alloc_2dimZ(det,(n_targ+n_non_targ),2,double,0.0);
+      alloc_2dimZ(det,(n_targ+n_non_targ+1),2,double,0.0);
       /* calculate the DET Curve */
       Compute_ROC (targ, n_targ, non_targ, n_non_targ, det);
 
@@ -115,7 +115,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       if (s < nscor-1) fprintf(fpd,", \\");
       fprintf(fpd,"\n");
 
-      if (det != (double**)0) free_2dimarr(det,(n_targ+n_non_targ),double);
+      if (det != (double**)0) free_2dimarr(det,(n_targ+n_non_targ+1),double);
       if (targ != (double *)0)     free_singarr(targ,double);
       if (non_targ != (double *)0) free_singarr(non_targ,double);
     }
@@ -135,7 +135,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
   END:
     if (targ != (double *)0)     free_singarr(targ,double);
     if (non_targ != (double *)0) free_singarr(non_targ,double);
-    if (det != (double**)0)      free_2dimarr(det,(n_targ+n_non_targ),double);
+    if (det != (double**)0)      free_2dimarr(det,(n_targ+n_non_targ+1),double);
     return(rtn);
 }
 
@@ -211,8 +211,9 @@ static void Compute_ROC (double *true_scores, int num_true, double *false_scores
 	
       /* bug fix JGF, the previous expression assumed an highest score would
 	 ALLWAYS be a TRUE score */
-	if ((true_scores[ntrue] <= false_scores[nfalse]) &&
-	    (ntrue < num_true))
+	if ((ntrue < num_true) &&
+	    (nfalse >= num_false ||
+	     (true_scores[ntrue] <= false_scores[nfalse])))
 	    ntrue = ntrue+1;
 	else
 	    nfalse = nfalse+1;
-- 
2.43.0


From 6c60f2ecbc31fcf9827b681128ca3415cfac5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:01 +0000
Subject: [PATCH 26/96] fix: with -f 0 confidence analyses were written for
 systems without confidences

---
 src/sclite/det.c | 50 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index 6968246..2e29360 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -31,14 +31,13 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       "\"50\" 0.0, \"60\" 0.25, \"70\" 0.52, \"80\" 0.84, \"90\" 1.28, "
       "\"95\" 1.64, \"98\" 2.05, \"99.5\" 2.57, \"99.9\" 3.08)";
 
-    if (feedback >= 1){
-      if (hyp_confidences_available(scor[0])) {
-        printf("    Writing DET Curve to '%s.det.[plt,dat]'\n",outroot);
-      } else {
+    if (! hyp_confidences_available(scor[0])) {
+      if (feedback >= 1)
         printf("    Skipping DET Curve, no confidence scores supplied.\n");
-	return 0;
-      }
+      return 0;
     }
+    if (feedback >= 1)
+      printf("    Writing DET Curve to '%s.det.[plt,dat]'\n",outroot);
     
     /* output the DET Curve GNUPLUT command file */
     if ((fpd = fopen(rsprintf("%s.det.plt",outroot),"w")) == (FILE *)0){
@@ -324,15 +323,14 @@ int make_confidence_histogram(SCORES *scor, char *outroot, int feedback){
     FILE *fp_dat1, *fp_plt;
     int rtn, b, nbin = 100;
 
-    if (feedback >= 1){
-      if (hyp_confidences_available(scor)) {
-        printf("    Writing Confidence Histogram '%s.hist.[plt,dat]'\n",
-	       outroot);
-      } else {
+    if (! hyp_confidences_available(scor)) {
+      if (feedback >= 1)
         printf("    Skipping Confidence Histogram, no confidence scores supplied.\n");
-	return 0;
-      }
+      return 0;
     }
+    if (feedback >= 1)
+      printf("    Writing Confidence Histogram '%s.hist.[plt,dat]'\n",
+	       outroot);
     
     /* allocate memory */
     alloc_2dimZ(hist,nbin,NUM_H_ELEM,double,0.0);
@@ -397,15 +395,14 @@ int make_binned_confidence(SCORES *scor, char *outroot, int feedback){
     FILE *fp_dat1, *fp_plt;
     int rtn, b, nbin = 10;
 
-    if (feedback >= 1){
-      if (hyp_confidences_available(scor)) {
-        printf("    Writing Binned Histogram '%s.bhist.[plt,dat1]'\n",
-	       outroot);
-      } else {
+    if (! hyp_confidences_available(scor)) {
+      if (feedback >= 1)
         printf("    Skipping Binned Histogram, no confidence scores supplied.\n");
-	return 0;
-      }
+      return 0;
     }
+    if (feedback >= 1)
+      printf("    Writing Binned Histogram '%s.bhist.[plt,dat1]'\n",
+	       outroot);
     
     /* allocate memory */
     alloc_2dimZ(hist,nbin,NUM_H_ELEM,double,0.0);
@@ -465,15 +462,14 @@ int make_scaled_binned_confidence(SCORES *scor, char *outroot, int bins, int fee
   double *conf;
   FILE *fp_dat, *fp_plt;
 
-  if (feedback >= 1){
-    if (hyp_confidences_available(scor))
-      printf("    Writing Scaled Binned Histogram '%s.sbhist.[plt,dat]'\n",
-	     outroot);
-    else{
-      printf("    Skipping Scaled Binned Histogram, no confidence scores supplied.\n");
+  if (! hyp_confidences_available(scor)) {
+      if (feedback >= 1)
+        printf("    Skipping Scaled Binned Histogram, no confidence scores supplied.\n");
       return 0;
     }
-  }
+    if (feedback >= 1)
+      printf("    Writing Scaled Binned Histogram '%s.sbhist.[plt,dat]'\n",
+	     outroot);
 
   /* algo, :
      1: make a list of all confidences, with either corr or incorr flags
-- 
2.43.0


From e887d75ebbb2e726a64af836901705d6edfd1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:41 +0000
Subject: [PATCH 27/96] fix: the multi-system DET graph mixed each system's
 scores with zeros from the systems before it

---
 src/sclite/det.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index 2e29360..3ed6feb 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -68,6 +68,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 
     /* biuld the target and non-target arrays */
     for (s=0; s<nscor; s++){
+      n_targ = n_non_targ = 0;
       alloc_singZ(targ,max_targ,double,0.0);
       alloc_singZ(non_targ,max_non_targ,double,0.0);
 
-- 
2.43.0


From d5f90f5bebd83fb7f3a9045ecfb81c3091b18d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:29 +0000
Subject: [PATCH 28/96] fix: the normal approximation of the binomial halved
 the number of successes

---
 src/sclite/statdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index a780315..e10cab3 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -791,7 +791,7 @@ double compute_acc_binomial(int R, int n, double p)
       double mean, stdev, zstat, flip;
       mean = n*p;
       stdev = sqrt(n*p*(1.0-p));
-      flip = (double)R * 0.5;
+      flip = (double)R + 0.5;
       zstat = (flip - mean) / stdev;
       sum = normprob((double)fabs(zstat));
       if (zstat < 0.0)  sum = 1.0 - sum;
-- 
2.43.0


From c2ccab53c07aca75c8e2999769c6dd40f7cb9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:56 +0000
Subject: [PATCH 29/96] fix: the Wilcoxon test names the system favoured by the
 rank sums, not by the counts

---
 src/sclite/wilcoxon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index ba552d0..6e42080 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -260,12 +260,12 @@ static int wilcoxon_test_analysis(int num_a, int num_b, double sum_a, double sum
     { double W, E;
       double var;
       int n;
-      if (num_a < num_b)
+      if (sum_a < sum_b)
           W = sum_a; 
       else
           W = sum_b; 
       n = num_a + num_b;
-      better = (num_a < num_b) ? 'b' : 'a';
+      better = (sum_a < sum_b) ? 'b' : 'a';
       if (zero_is_best)  /* make an adjustment for direction of PCTS*/
           better = (better == 'a') ? 'b' : 'a';
       E = ((double)n * (double)(n+1) / 4.0);
-- 
2.43.0


From 8c13b4257fdc5ed657104fa88411f65e82a90cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:42 +0000
Subject: [PATCH 30/96] fix: the sign test names the system that is better for
 more speakers

---
 src/sclite/signtest.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 7d01e07..6ea48a8 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -222,12 +222,15 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
 int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b, int str_z, double alpha, int verbose, char *treat1_str, char *treat2_str, int *tptr, int zero_is_best, FILE *fp, double *confidence)
 {
     double test_stat, p=0.5;
-    int i;
+    int i, first_is_better;
 
     num_b += (num_z / 2) + (num_z % 2);
     num_a += (num_z / 2);
     num_z = 0;
 
+    /* the test favors the system that is better for more speakers */
+    first_is_better = (zero_is_best) ? (num_a < num_b) : (num_a > num_b);
+
     /* multiplication by 2 means it's a two-tailed test */
     if (num_a != num_b) 
         test_stat = 2.0 * compute_acc_binomial(MIN(num_a,num_b),num_a+num_b,p);
@@ -287,7 +290,7 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         if (test_stat < alpha){            
             fprintf(fp,"is REJECTED\n");
             fprintf(fp,"        in favor of the Alternate Hypothesis.  Further, %s is the\n",
-                   (zero_is_best) ? treat2_str : treat1_str);
+                   (first_is_better) ? treat1_str : treat2_str);
             fprintf(fp,"        better System.\n");
         } else{
             fprintf(fp,"is ACCEPTED\n");
@@ -296,8 +299,8 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         form_feed(fp);
     }
     if (test_stat < alpha){
-        if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((zero_is_best) ? 1 : -1));
-        return(TEST_DIFF * ((zero_is_best) ? 1 : -1));
+        if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((first_is_better) ? -1 : 1));
+        return(TEST_DIFF * ((first_is_better) ? -1 : 1));
       }
     return(NO_DIFF);
 }
-- 
2.43.0


From 09aafe900ccd26d01ccf75273938a77712497dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:28 +0000
Subject: [PATCH 31/96] fix: sc_stats -f E|R|W selects the percentage formula

---
 src/sclite/sc_stats.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index 5c56dd4..049479e 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -325,9 +325,25 @@ void proc_arcs(int argc, char **argv, char *prog, char **pralign, int *npralign,
 	} else if (strcmp(argv[opt],"-p") == 0){
 	    *pipein = 1;
 	} else if (strcmp(argv[opt],"-f") == 0){
+	    /* a letter is the percentage formula, a number the feedback level */
+	    char *sf;
 	    if (argc <= opt+1) do_exit("Not enough Feedback arguments",prog,1);
-	    *feedback = atoi(argv[++opt]);
-	    fbset = 1;
+	    sf = argv[++opt];
+	    if (isalpha((unsigned char)*sf)){
+		*stats_formula = sf;
+		if ((strcmp(sf,"E") != 0) && (strcmp(sf,"W") != 0) &&
+		    (strcmp(sf,"R") != 0)){
+		    if ((strcmp(sf,"e") == 0) || (strcmp(sf,"w") == 0) ||
+			(strcmp(sf,"r") == 0))
+			*sf = toupper(*sf);
+		    else
+			do_exit(rsprintf("Unrecognized Statistics percent, '%s'\n",
+					 sf),prog,1);
+		}
+	    } else {
+		*feedback = atoi(sf);
+		fbset = 1;
+	    }
 	} else if (strcmp(argv[opt],"-O") == 0){
 	    if (argc <= opt+1)do_exit("Output directory not specified",prog,1);
 	    *out_dir = argv[++opt];
@@ -414,20 +430,6 @@ void proc_arcs(int argc, char **argv, char *prog, char **pralign, int *npralign,
 	    /* backup if we've gone to far */
 	    if (opt < argc && *(argv[opt]) == '-') opt--;
 	    statset=1;
-	} else if (strcmp(argv[opt],"-f") == 0){
-	    char *sf;
-	    if (argc <= opt+1) do_exit("Percentage Formula Not defined",
-				       prog,1);
-	    sf = *stats_formula = argv[++opt];
-	    if ((strcmp(sf,"E") != 0) && (strcmp(sf,"W") != 0) &&
-		(strcmp(sf,"R") != 0)){
-		if ((strcmp(sf,"e") == 0) || (strcmp(sf,"w") == 0) ||
-		    (strcmp(sf,"r") == 0))
-		    *sf = toupper(*sf);
-		else
-		    do_exit(rsprintf("Unrecognized Statistics percent, '%s'\n",
-				     sf),prog,1);
-	    }
 	} else if (strcmp(argv[opt],"-w") == 0){
 	    /* Do the works */
 	    *stats_graphs = GRAPH_RANGE;
-- 
2.43.0


From 3ca2a4a592f63c84d0692b9ba33be27432a0d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:53 +0000
Subject: [PATCH 32/96] fix: sc_stats pairs the speakers of different systems
 by name, not by position

---
 src/sclite/rank.c | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 9773ee0..89d017c 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -12,19 +12,41 @@
 
 #include "sctk.h"
 
+/**********************************************************************/
+/*   return the index of the group called 'name', or -1               */
+/**********************************************************************/
+static int find_SCORES_grp(SCORES *scor, char *name)
+{
+    int g;
+    for (g=0; g<scor->num_grp; g++)
+	if (strcmp(scor->grp[g].name,name) == 0)
+	    return(g);
+    return(-1);
+}
+
 /**********************************************************************/
 /*   initialize and allocate memory for the RANK structure from the   */
 /*   SYS_ALIGN_LIST                                                   */
 /**********************************************************************/
 void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *calc_formula)
 {
-    int blk=0,trt,i,n,mlen=0,msclen=0,g;
+    int blk=0,trt,i,n,mlen=0,msclen=0,g,b;
     int c,s,d;
+    int *blk_grp; /* the group of the first system for each block */
 
-    /* set it to the max number of speakers for all systems */
+    /* the blocks are the speakers of the first system which all systems have */
+    alloc_singarr(blk_grp,MAX(scor[0]->num_grp,1),int);
+    for (b=0; b<scor[0]->num_grp; b++){
+	for (n=1; n<nscor; n++)
+	    if (find_SCORES_grp(scor[n],scor[0]->grp[b].name) < 0)
+		break;
+	if (n >= nscor)
+	    blk_grp[blk++] = b;
+	else
+	    fprintf(stderr,"Warning: Speaker %s is in system %s but not system %s\n",
+		    scor[0]->grp[b].name,scor[0]->title,scor[n]->title);
+    }
     for (n=0; n<nscor; n++){
-	if (blk < scor[n]->num_grp)
-	    blk = scor[n]->num_grp;
 	if (msclen < strlen(scor[n]->title))
 		msclen = strlen(scor[n]->title);
 	for (g=0; g<scor[n]->num_grp; g++)
@@ -36,10 +58,8 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     rank->n_blk  = blk;
     rank->n_trt  = trt;
     alloc_2dimarr(rank->blk_name,blk,mlen+1,char);
-    /* copy in only what's available from the first system */
     for (i=0; i<blk; i++)
-	if (i < scor[0]->num_grp)
-	    strcpy(rank->blk_name[i] ,scor[0]->grp[i].name);
+	strcpy(rank->blk_name[i] ,scor[0]->grp[blk_grp[i]].name);
     alloc_2dimarr(rank->trt_name,trt,msclen+1,char);
     for (i=0; i<trt; i++){
         strcpy(rank->trt_name[i],scor[i]->title);
@@ -53,20 +73,21 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     alloc_singarr(rank->trt_srt_ind ,blk,int);
 
     for (n=0; n<nscor; n++)
-	for (g=0; g<scor[n]->num_grp; g++){
+	for (b=0; b<blk; b++){
+	    g = find_SCORES_grp(scor[n],rank->blk_name[b]);
 	    c = scor[n]->grp[g].corr;
 	    s = scor[n]->grp[g].sub; 
 	    d = scor[n]->grp[g].del;
 	    i = scor[n]->grp[g].ins;
             switch (*calc_formula) {
 	      case 'R':
-		rank->pcts[g][n] = pct(c, (c + s + d));
+		rank->pcts[b][n] = pct(c, (c + s + d));
 		break;
 	      case 'E':
-		rank->pcts [g][n] = pct((i + s + d),(c + d + s));
+		rank->pcts [b][n] = pct((i + s + d),(c + d + s));
 		break;
 	      case 'W':
-		rank->pcts[g][n] = 100.0000 - 
+		rank->pcts[b][n] = 100.0000 - 
 		    pct((i + s + d),(c + d + s));
 		break;
 	      default:
@@ -75,6 +96,8 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
 	    }
 	}
 
+    free_singarr(blk_grp,int);
+
     if (*calc_formula == 'E' )
         rank_on_pcts(rank,INCREASING);
     else
-- 
2.43.0


From 41719b7d66f3df61994f5af9702cd26d1f41d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:44 +0000
Subject: [PATCH 33/96] fix: analysis of variance: multiple comparison only
 after the overall test, with the documented bt(t+1)/6, and ties over all
 speakers

---
 src/sclite/anovar.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index f7f384d..20a14ae 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -87,12 +87,13 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
     /* if at least one difference, do multiple comparison */
     if (analyze_rank_sum(rank,rnk_trt(rank),rnk_blks(rank),
 			 sum_trt_rank,
-                         FOR_TREATMENTS,verbose,fp) == TEST_DIFF)
+                         FOR_TREATMENTS,verbose,fp) == TEST_DIFF){
 	clear_2dim(trt_winner,rank->n_trt,rank->n_trt,NO_DIFF);
         do_multi_comp_for_anovar(rnk_trt(rank),rnk_blks(rank),
                                  rnk_t_name(rank),sum_trt_rank,
                                  ovr_t_rank(rank),RANK_TITLEA,
                                  srt_t_rank(rank),trt_winner,verbose,fp);
+    }
     if (verbose) form_feed(fp);
 
     if (verbose){
@@ -105,12 +106,13 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
     }
     /* if at least one difference, do multiple comparison */
     if (analyze_rank_sum(rank,rnk_blks(rank),rnk_trt(rank),sum_blk_rank,
-                         FOR_BLOCKS,verbose,fp) == TEST_DIFF)
+                         FOR_BLOCKS,verbose,fp) == TEST_DIFF){
 	clear_2dim(blk_winner,rank->n_blk,rank->n_blk,NO_DIFF);
         do_multi_comp_for_anovar(rnk_blks(rank),rnk_trt(rank),
                                  rnk_b_name(rank),sum_blk_rank,
                                  ovr_b_rank(rank),RANK_TITLEB,
                                  srt_b_rank(rank),blk_winner, verbose,fp);
+    }
     if (verbose && (fp == stdout)) form_feed(fp);
     free_2dimarr(blk_winner,rank->n_blk,int); 
     free_singarr(sum_trt_rank,double);
@@ -329,7 +331,7 @@ static double calc_adjust_for_blks(RANK *rank)
             sort_arr[sort_num] = Vrnk_b_rank(rank,j,i);
             sort_count[sort_num]++;
 	}
-        for (j=0;j<rnk_trt(rank); j++)
+        for (j=0;j<rnk_blks(rank); j++)
             if (sort_count[j] > 0)
                 sum_T += (sort_count[j] * sort_count[j] * sort_count[j])
                            - sort_count[j];
@@ -379,7 +381,7 @@ static void calc_stat_ranks(int trt_num, int blk_num, int **stat_sum, double *su
 
     /* calculate the comparison value for the confidence interval */
     Zcomp_value = calc_comp_value(trt_num,blk_num);
-    sqr_root = sqrt(blk_num * trt_num * (trt_num - 1) / 6.000000);
+    sqr_root = sqrt(blk_num * trt_num * (trt_num + 1) / 6.000000);
     compare_value = (double)Zcomp_value * (double)sqr_root;
 
     /* go through the comparison and build an array to rank */
-- 
2.43.0


From 3e4cedd8c85e3e8146bc48e8513b931fb3eb560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:13 +0000
Subject: [PATCH 34/96] fix: analysis of variance: report a significance level
 instead of always <0.001

---
 src/sclite/anovar.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index 20a14ae..f48e803 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -60,7 +60,7 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
 	    if (feedback >= 1) printf("        Output written to '%s'\n",f);
     }
 
-    alloc_2dimZ(conf,rank->n_trt,rank->n_trt,double,0.0);
+    alloc_2dimZ(conf,rank->n_trt,rank->n_trt,double,1.0);
     alloc_2dimZ(trt_winner,rank->n_trt,rank->n_trt,int,NO_DIFF);
     alloc_2dimZ(blk_winner,rank->n_blk,rank->n_blk,int,NO_DIFF);
     *out_sys_winner = trt_winner;
@@ -93,6 +93,14 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
                                  rnk_t_name(rank),sum_trt_rank,
                                  ovr_t_rank(rank),RANK_TITLEA,
                                  srt_t_rank(rank),trt_winner,verbose,fp);
+	/* the smallest alpha for which the multiple comparison rejects */
+	for (i=0;i<rnk_trt(rank);i++)
+	    for (j=0;j<rnk_trt(rank);j++){
+		double z = fabs(sum_trt_rank[i] - sum_trt_rank[j]) /
+		    sqrt(rnk_blks(rank) * rnk_trt(rank) * (rnk_trt(rank) + 1) / 6.0);
+		conf[i][j] = rnk_trt(rank) * (rnk_trt(rank)-1) * (1.0 - normprob(z));
+		if (conf[i][j] > 1.0) conf[i][j] = 1.0;
+	    }
     }
     if (verbose) form_feed(fp);
 
-- 
2.43.0


From c25f79ec07ac4cd89467ad763a1db62a22772031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:48 +0000
Subject: [PATCH 35/96] fix: sign and wilcoxon detail reports overflowed a
 buffer for short system names

---
 src/sclite/signtest.c |  9 +++------
 src/sclite/wilcoxon.c | 10 ++++------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 6ea48a8..cf56190 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -189,12 +189,9 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
         fprintf(fp,pct_format,sum_trt2 /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal),paper_width));
         fprintf(fp,"\n\n");
     }
 
diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index 6e42080..77e8789 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -211,12 +211,10 @@ int compute_wilcoxon_for_treatment(RANK *rank, int treat1, int treat2, char *blo
 	fprintf(fp,"%6.2f",sum_trt_diff /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"Sum of %2d positive ranks = %4.1f",
-		sum_plus,sum_plus_rank);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"Sum of %2d negative ranks = %4.1f",
-		sum_minus,sum_minus_rank);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("Sum of %2d positive ranks = %4.1f",
+		sum_plus,sum_plus_rank),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("Sum of %2d negative ranks = %4.1f",
+		sum_minus,sum_minus_rank),paper_width));
         fprintf(fp,"\n\n");
     }
     
-- 
2.43.0


From 0d18bb927250d83da102b23ec5e51d327c7c281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:03 +0000
Subject: [PATCH 36/96] fix: rover lost or duplicated words at file and channel
 ends and did not detect channel mismatches

---
 src/sclite/mfa.c     | 57 ++++++++++++++++++++++++++------------------
 src/sclite/netstr1.h |  2 +-
 src/sclite/rover.c   | 14 ++++++-----
 3 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 13b3dec..99709dc 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -1,6 +1,6 @@
 #include <sctk.h>
 
-void locate_next_file_channel(WTOKE_STR1 **ctms, int nctms, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback);
+int locate_next_file_channel(WTOKE_STR1 **ctms, int nctms, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback);
 void print_linear(NODE *node, void *p);
 int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, int *mgap_s);
 NETWORK *perform_mfalign(WTOKE_STR1 **ctms, int nctm, int *sil_end, int time_align);
@@ -15,7 +15,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
     NETWORK *mfnet;
     FILE **files;
     int *eofs, *conv_end, *sil_end;
-    int in;
+    int in, first;
     int done;
     NETWORK  *cor;
     char *file, *chan;
@@ -42,11 +42,13 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
     }
     done = 0;
     while (!done){
-        locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
-				 case_sense, feedback);
-	
-	file = ctms[0]->word[ctms[0]->s].conv;
-	chan = ctms[0]->word[ctms[0]->s].turn;
+        first = locate_next_file_channel(ctms, nhyps, files, hypname, eofs,
+					 conv_end, case_sense, feedback);
+	/* no more data in any ctm */
+	if (first < 0) break;
+
+	file = ctms[first]->word[ctms[first]->s].conv;
+	chan = ctms[first]->word[ctms[first]->s].turn;
 
 	/* loop though the file/channel section, looking for time breaks */
 	while(find_common_silence(ctms, nhyps, conv_end,
@@ -80,7 +82,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
@@ -143,32 +145,41 @@ NETWORK *perform_mfalign(WTOKE_STR1 **ctms, int nctm, int *end, int time_align){
 }
 
     
-void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback){
-    int in;
+int locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback){
+    int in, first = -1;
 
     /* locate the file boundaries */
     for (in=0; in < nctm; in++){ 
 	fill_WTOKE_structure(ctms[in], files[in], hypname[in],
 			     &(eofs[in]), case_sense);
 	locate_boundary(ctms[in], ctms[in]->s, TRUE,TRUE,&(conv_end[in]));
-	if (in >= 1 && ctms[in]->s <= ctms[in]->n)
-	    if (strcmp(ctms[0]->word[ctms[0]->s].conv,
-		       ctms[in]->word[ctms[in]->s].conv) != 0){
-		fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
-			"%s and %s respectively",hypname[0],hypname[in],
-			ctms[0]->word[ctms[0]->s].conv,
-			ctms[in]->word[ctms[in]->s].conv);
-		exit(1);
-	    }
+	/* a ctm without any data left takes no part in this section */
+	if (ctms[in]->s > ctms[in]->n) continue;
+	if (first < 0)
+	    first = in;
+	else if (strcmp(ctms[first]->word[ctms[first]->s].conv,
+			ctms[in]->word[ctms[in]->s].conv) != 0 ||
+		 strcmp(ctms[first]->word[ctms[first]->s].turn,
+			ctms[in]->word[ctms[in]->s].turn) != 0){
+	    fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
+		    "%s %s and %s %s respectively\n",
+		    hypname[first],hypname[in],
+		    ctms[first]->word[ctms[first]->s].conv,
+		    ctms[first]->word[ctms[first]->s].turn,
+		    ctms[in]->word[ctms[in]->s].conv,
+		    ctms[in]->word[ctms[in]->s].turn);
+	    exit(1);
+	}
     }
-    if (feedback >= 1) {
+    if (feedback >= 1 && first >= 0) {
 	printf("Working on conversation: %s channel: %s\n",	
-	       ctms[0]->word[ctms[0]->s].conv,
-	       ctms[0]->word[ctms[0]->s].turn);
+	       ctms[first]->word[ctms[first]->s].conv,
+	       ctms[first]->word[ctms[first]->s].turn);
 	for (in=0; in < nctm; in++)
 	    printf("   File: %s  range %d-%d\n",hypname[in],ctms[in]->s,
 		   conv_end[in]);
     }
+    return(first);
 }
 
 /* This function looks for common periods of silence to all the  WTOKE
@@ -277,7 +288,7 @@ int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, i
     
     /* if there is no more data in this ctm, that answer is YES */
     if (ctm->s > end) {
-	*mgap_s = ctm->s;
+	*mgap_s = end;
 	return(1);
     }
 
diff --git a/src/sclite/netstr1.h b/src/sclite/netstr1.h
index 3b346b1..280e407 100644
--- a/src/sclite/netstr1.h
+++ b/src/sclite/netstr1.h
@@ -162,5 +162,5 @@ void dump_NET_ALIGN(NET_ALIGN *net_ali,FILE *fp);
 void Network_delete_null_arcs(NETWORK *out_net);
 void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense, int feedback, void (*callback)(NETWORK *, char *, char *),double silence_dur);
 int find_common_silence(WTOKE_STR1 **ctms, int nctm, int *conv_end, int *sil_end, double silence_dur);    
-void locate_next_file_channel(WTOKE_STR1 **ctms, int nctms, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback);
+int locate_next_file_channel(WTOKE_STR1 **ctms, int nctms, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback);
 
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3bd15f4..398b0ea 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -97,7 +97,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
     NETWORK *mfnet;
     FILE **files;
     int *eofs, *conv_end, *sil_end;
-    int in;
+    int in, first;
     int done;
     struct mfalign_best_seq_struct mf_sel_str;
 
@@ -147,11 +147,13 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
     }
     done = 0;
     while (!done){
-        locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
-				 case_sense, feedback);
+        first = locate_next_file_channel(ctms, nhyps, files, hypname, eofs,
+					 conv_end, case_sense, feedback);
+	/* no more data in any ctm */
+	if (first < 0) break;
 
-	mf_sel_str.file = ctms[0]->word[ctms[0]->s].conv;	
-	mf_sel_str.chan = ctms[0]->word[ctms[0]->s].turn;	/* channel */
+	mf_sel_str.file = ctms[first]->word[ctms[first]->s].conv;	
+	mf_sel_str.chan = ctms[first]->word[ctms[first]->s].turn; /* channel */
 	
 	/* loop though the file/channel section, looking for time breaks */
 	while(find_common_silence(ctms, nhyps, conv_end, sil_end, 1.0) == 1){
@@ -183,7 +185,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
-- 
2.43.0


From bb851460d549fd55353d603dc56fb3449cb00a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:06 +0000
Subject: [PATCH 37/96] fix: rover crashed on inputs without words

---
 src/sclite/net_dp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/net_dp.c b/src/sclite/net_dp.c
index 09cf40f..7a52570 100644
--- a/src/sclite/net_dp.c
+++ b/src/sclite/net_dp.c
@@ -800,6 +800,9 @@ static void destroy_NET_ALIGN(NET_ALIGN **net_ali){
 
     if (db >= 1) printf("Entering %s:\n",proc);
 
+    /* nothing was ever aligned */
+    if (*net_ali == NET_ALIGN_NULL) return;
+
     /* free the cell array */
     free_2dimarr((*net_ali)->cell,(*net_ali)->arcset_a.max,CELL);
 
-- 
2.43.0


From 5c07c626dd34419bcf7386ae58bc03948942b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:45 +0000
Subject: [PATCH 38/96] fix: rover failed to vote when confidences were missing
 or all zero

---
 src/sclite/rover.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 398b0ea..7747db8 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -431,7 +431,8 @@ void print_linear(NODE *node, void *p){
 	    else if (mf_sel_str->method == METH_AVGCONF){
 		word_score[i] = ( mf_sel_str->alpha * ((double)word_occ[i]/(double)Narc) +
 				  ((1.0-mf_sel_str->alpha) * 
-				   word_conf_sum[i] / total_conf));
+				   ((total_conf != 0.0) ?
+				    word_conf_sum[i] / total_conf : 0.0)));
 		if (mfdb > 5) {
 		    printf("avgconf word_score[%d] = %f\n",i,word_score[i]);
 		    printf("      %.3f * (%.3f / %.3f) + (1 - %.3f) * (%.3f / %.3f)\n",
@@ -443,7 +444,7 @@ void print_linear(NODE *node, void *p){
 		fprintf(scfp,"Error: undefined method PL2 %d\n",mf_sel_str->method);
 		exit(1);
 	    }
-	    if (word_score[i] > max_score){
+	    if (best_w < 0 || word_score[i] > max_score){
 		max_score = word_score[i];
 		best_w = i;
 		ties = 1;
-- 
2.43.0


From c8f585bf0abb3b9f9de2a381f796b3a28ef84ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:19 +0000
Subject: [PATCH 39/96] fix: rover: maxconfa gives the NULL word its documented
 confidence

---
 src/sclite/rover.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 7747db8..08b90c2 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -413,6 +413,11 @@ void print_linear(NODE *node, void *p){
 	best_w = -1;
 	ties = 0;
 	for (i=0; i<nword; i++){
+	    /* the confidence of the NULL word is its share of the systems */
+	    if (mf_sel_str->method == METH_MAXCONFA &&
+		node->out_arcs->arc->net->arc_func.equal(wlist[i],
+						mf_sel_str->null_alt) == 0)
+		word_max_conf[i] = (double)word_occ[i]/(double)Narc;
 	    if (mf_sel_str->method == METH_METH1 ||	
 		mf_sel_str->method == METH_METH1A || 
 		mf_sel_str->method == METH_ORACLE) {
-- 
2.43.0


From ceb2dc2e59c1e9c4cb21dc61eccb092e570cfccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:05 +0000
Subject: [PATCH 40/96] fix: rfilter1: rule files with no rules or exactly
 MAX_NRULES rules

---
 src/rfilter1/include/grules2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index a4a4833..abe6b1f 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -296,7 +296,7 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
 	    }
           else
             {if (n_data_lines_processed == 0)
-               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules,sizeof(RULE2),proc);
+               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
              remove_comments(pline,comment_flag);
              r_process_data_line(rset,pline,perr);
              if (*perr > 0) goto RETURN;
@@ -310,6 +310,9 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
   /* close file & adjust some variables  */
     if (fclose(fp) != 0)
       fprintf(stderr,"%s: error return from fclose\n",proc);
+  /* a file may hold no rules at all */
+    if (n_data_lines_processed == 0)
+      rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
   /* zero out value for each rule */
     for (i=0; i <= rset->nrules; i++) rset->rule[i].val1 = 0;
   /* make rule indexing tables */
-- 
2.43.0


From 01c043886805965cbb3f90208c242e8b4ad58e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:53 +0000
Subject: [PATCH 41/96] fix: rfilter1: header keywords were recognized inside
 of quoted values

---
 src/rfilter1/include/grules2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index abe6b1f..3ef2d59 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -33,6 +33,8 @@
       }
     else
       {sval = substr_to_str(ssp,sval,LINE_LENGTH);
+/* the keyword is looked for outside of the quoted value */
+       memset(upr_pline + (ssp->start - pline),' ',substr_length(ssp));
 /* identify field and store its value */
 	if (strstr((char *)upr_pline,"NAME"))
          {free_str(rset->name);
-- 
2.43.0


From b7a15e9494817ba7114df8de195aaf062998fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:39 +0000
Subject: [PATCH 42/96] fix: rfilter1: left contexts were compared with memory
 before the line

---
 src/rfilter1/include/aprules2.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index ce78a7e..eefcd3c 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -43,7 +43,8 @@ if (db_level > 1) printf("%s key_char = %d (%c)\n",pdb,key_char,key_char);
        {irule = rset->rule_index[jrule];
 if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
  if (streq((char *)rset->format,"NIST1"))
-          {if ( ((rset->case_sensitive)&&
+          {if ( (pi - pa >= rset->rule[irule].lcontextl) &&
+              ( ((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
                  (strncmp((char *)(pi-rset->rule[irule].lcontextl),
                           (char *)rset->rule[irule].lcontext,
@@ -58,7 +59,7 @@ if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
                           rset->rule[irule].lcontextl)==0)&&
                  (strncasecmp((char *)(pi+rset->rule[irule].sinl),
 			      (char *)rset->rule[irule].rcontext,
-                          rset->rule[irule].rcontextl)==0))
+                          rset->rule[irule].rcontextl)==0)) )
 	      )
              {hit = T;
 	       pb = (Char *)strcat((char *)pb,(char *)rset->rule[irule].sout);
@@ -68,7 +69,7 @@ if (db_level > 1) printf("%s rule fired\n",pdb);
              }
 if (db_level > 2) printf("%s irule=%d, lcontextl=%d, lcont match = %s\n",
 pdb,irule,rset->rule[irule].lcontextl,
-			 bool_print((strncasecmp((char *)(pi-rset->rule[irule].lcontextl),
+			 bool_print((pi - pa >= rset->rule[irule].lcontextl)&&(strncasecmp((char *)(pi-rset->rule[irule].lcontextl),
 						 (char *)(rset->rule[irule].lcontext),
                     rset->rule[irule].lcontextl)==0)));
           }
-- 
2.43.0


From 0c34f163faf58e5b0d380726e6527a76ded94f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:30 +0000
Subject: [PATCH 43/96] fix: rfilter1: slashes of the left or right hand side
 were taken for the context marker

---
 src/rfilter1/include/grules2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index 3ef2d59..2533c1c 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -93,11 +93,11 @@ if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
           *perr = 32; goto RETURN;
 	 }
 /* context marker is last slash IFF not enclosed in [] */
-       icontext = (Char *)strrchr((char *)pline,'/');
+       icontext = (Char *)strrchr((char *)ieq,'/');
        if (icontext != NULL)
          {irmark = (Char *)strchr((char *)icontext,']');
 	   ilmark = (Char *)strchr((char *)icontext,'[');
-          if (irmark < ilmark) /* enclosed in [] */
+          if ((irmark != NULL) && ((ilmark == NULL) || (irmark < ilmark))) /* enclosed in [] */
             {icontext = NULL;
 	    }
           else
-- 
2.43.0


From a60087d0bf409b4fa3c55ba7744db0c54de18688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:21 +0000
Subject: [PATCH 44/96] fix: rfilter1: accept the documented rule format NIST2
 and report unknown ones

---
 src/rfilter1/include/aprules2.c |  4 ++--
 src/rfilter1/include/grules2.c  | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index eefcd3c..20bc793 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -27,7 +27,7 @@ Char *apply_rules2(Char *pb, Char *pa, RULESET2 *rset, int *perr)
     {pb = (Char *)strcpy((char *)pb,(char *)pa);
      goto RETURN;
     }
-  if (!streq((char *)(rset->format),"NIST1"))
+  if (!streq((char *)(rset->format),"NIST1") && !streq((char *)(rset->format),"NIST2"))
     {fprintf(stderr,"*ERR:%s: invalid format '%s'\n",proc,rset->format);
      *perr = 11;
      goto RETURN;
@@ -42,7 +42,7 @@ if (db_level > 1) printf("%s key_char = %d (%c)\n",pdb,key_char,key_char);
      for (jrule = rset->first_rule[key_char]; (!hit) && (jrule <= rset->last_rule[key_char]); jrule++)
        {irule = rset->rule_index[jrule];
 if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
- if (streq((char *)rset->format,"NIST1"))
+ /* NIST1 and NIST2 rules are matched alike */
           {if ( (pi - pa >= rset->rule[irule].lcontextl) &&
               ( ((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index 2533c1c..7cb5aa9 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -62,6 +62,7 @@
   /*    error codes:   1: no valid information in pline       */
   /*                  31: memory ovf (too many rules)         */
   /*                  32: no arrow                            */
+  /*                  11: invalid rule format                 */
   /*   (Fatal error if memory allocation fails.)              */
   /************************************************************/
   static void r_process_data_line(RULESET2 *rset, Char *pline, int *perr)
@@ -81,8 +82,8 @@ if (db_level > 1) printf("%s data line '%s'\n",pdb,pline);
        *perr=1; goto RETURN;
       }
   /* check for which format  */
-  /* NIST1: literal ascii, optionally context-sensitive  */
-    if (streq((char *)rset->format,"NIST1"))
+  /* NIST1, NIST2: literal ascii, optionally context-sensitive  */
+    if (streq((char *)rset->format,"NIST1") || streq((char *)rset->format,"NIST2"))
       {/* get major boundary elements */
 
 if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
@@ -198,6 +199,11 @@ if (db_level > 3) printf("%s getting right context\n",pdb);
 if (db_level > 3) printf("%s rcontext='%s',len=%d\n",pdb,rx->rcontext,rx->rcontextl);
       }  }  }  }
 
+    else
+      {fprintf(stderr,"*ERR:%s: invalid format '%s'\n",proc,rset->format);
+       *perr = 11; goto RETURN;
+      }
+
     if (rset->nrules < rset->max_nrules)
       {rset->nrules += 1;
        rset->rule[rset->nrules] = *rx;
-- 
2.43.0


From ea1c84d8d82cbebf9a573381a1f66487cf5cafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:13 +0000
Subject: [PATCH 45/96] fix: csrfilt: exit with status 1 when the input or the
 rules could not be used

---
 src/csrfilt/csrfilt.sh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 9e36956..946d73a 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -456,6 +456,10 @@ else
 		cp /tmp/hs_filt.orig.$$ /tmp/hs_filt.out.$$
 	fi
 fi
+if test $? -ne 0 ; then
+    /bin/rm -f /tmp/hs_filt.*.$$
+    exit 1
+fi
 
 ############################################################################################
 ####   Step 2: Check the optionally deletable tags.  The code relies on them being valid
@@ -464,9 +468,18 @@ ret="`cat /tmp/hs_filt.out.$$ | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;'
 if [ $ret = "error" ] ; then
     echo "Error: Can not filter text with illegally formatted optional deletion tags.  Look for:"
     cat /tmp/hs_filt.out.$$ | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;' | getInvalidOptDelTags
+    /bin/rm -f /tmp/hs_filt.*.$$
     exit 1
 fi
 
+####   Make sure that the rules can be applied
+if rfilter1 /tmp/hs_filt.glm.$$ < /dev/null > /dev/null ; then
+    :
+else
+    echo "Error: Can not apply the rules of '$glob_map'" 1>&2
+    /bin/rm -f /tmp/hs_filt.*.$$
+    exit 1
+fi
 
 
 #########################################################################
-- 
2.43.0


From 3b9007a5e322ee96695f30720a830c8412fa614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:21 +0000
Subject: [PATCH 46/96] fix: csrfilt dropped the comment lines of txt input and
 the last letter of an unterminated stm comment

---
 src/csrfilt/csrfilt.sh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 946d73a..dc20d73 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -534,7 +534,7 @@ elif test "$inputtype" = "stm" ; then
 		while (! eof(STDIN)){
 			$text = <STDIN>;
 			$ext = <IN>;
-			chop($ext);
+			chomp($ext);
 			print "$ext$text";
 		}
 		close IN' | \
@@ -553,6 +553,15 @@ elif test "$inputtype" = "trn" ; then
 	perl -pe 'if ($_ !~ /^;/) {s/^[ \t]+//; s/[ \t]+$//; s/[ \t]+/ /g}'
 else
 	eval $filt_com | \
+	perl -e '$inext = "'/tmp/hs_filt.outext.$$'";
+		open(IN,"<$inext") || die("Error: failed to open input \"$inext\" of the txt file");
+		while (! eof(STDIN)){
+			$text = <STDIN>;
+			$ext = <IN>;
+			chomp($ext);
+			print "$ext$text";
+		}
+		close IN' | \
 	perl -pe 'if ($_ !~ /^;/) {s/^[ \t]+//; s/[ \t]+$//; s/[ \t]+/ /g}'
 fi
 
-- 
2.43.0


From 64455a28a42f01039a63bc2b05366a83d37b5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:37 +0000
Subject: [PATCH 47/96] fix: csrfilt put the confidence in the place of a
 deleted ctm word, kept emptied rttm lexemes and took NA for a word

---
 src/csrfilt/csrfilt.sh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index dc20d73..eb8b8e0 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -294,7 +294,7 @@ cat > /tmp/hs_filt.ctm.$$ << EOF
 	@l = split;
 	if (\$#l == 4) {print}
 	else {
-	    if (\$l[\$#l] =~ /^[0-9\.-]*\$/) {\$limit=\$#l-1;\$conf=\$l[\$#l]} 
+	    if (\$l[\$#l] =~ /^([0-9\.-]*|NA)\$/) {\$limit=\$#l-1;\$conf=\$l[\$#l]} 
 	    else {                         \$limit=\$#l;\$conf=""} ; 
 
 	    \$data = join(" ",splice(@l,4,\$limit - 4 + 1));
@@ -367,6 +367,7 @@ if test "$inputtype" = "ctm" ; then
 				 print OUT2 "\n";
 			 } else {
 				 @a = split(/\s+/, $_);
+				 die("Error: Parse of ctm line failed") if ($#a > 0 && $#a < 5);
 				 print OUT2 splice(@a,5,1)."\n";
 				 print OUT1 join(" ",@a)."\n";
 			 }
@@ -498,8 +499,10 @@ if test "$inputtype" = "ctm" ; then
 			$text = <STDIN>;
 			chomp($text);
 			$ext = <IN>;
+			@a = split(/\s+/,$ext);
+			# skip the line of a deleted word
+			next if ($text !~ /\S/ && $ext !~ /^;;/ && $#a <= 5);
 			if ($text ne ""){
-				@a = split(/\s+/,$ext);
 				splice(@a, 5, 0, $text);
 				$ext = join(" ",@a)."\n";
 			}
@@ -522,6 +525,8 @@ elif test "$inputtype" = "rttm" ; then
 				@a = split(/\s+/,$ext);
 				splice(@a, 6, 0, $text);
 				$ext = join(" ",@a)."\n";
+			} elsif ($ext =~ /^ LEXEME.* (lex|fp|un-lex|for-lex|alpha|acronym|interjection|propernoun|other) /) {
+				next;   # the word was deleted
 			}
 			print $ext;
 		}
-- 
2.43.0


From 603fe95219045692e6501dc187919b4bc10903da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:57 +0000
Subject: [PATCH 48/96] fix: csrfilt left an empty pair of parentheses of a
 deleted optional word

---
 src/csrfilt/csrfilt.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index eb8b8e0..b60c5f0 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -220,6 +220,7 @@ propogateOptDel(){
 		  while ($_ =~ s/(\(\s+[^()\s]+\s+)([^()\s]+)/$1\) \( $2/){
 		      ;
 		  }
+		  s/\(\s+\)//g;   # nothing is left of the optional words
 		  print;
               }'    
 }
-- 
2.43.0


From 0427a038d631bfce61036023057a320075c240c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:32 +0000
Subject: [PATCH 49/96] fix: hamzaNorm skipped words after a tab

---
 src/hamzaNorm/hamzaNorm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hamzaNorm/hamzaNorm.pl b/src/hamzaNorm/hamzaNorm.pl
index 5a0b4c1..3d270f1 100755
--- a/src/hamzaNorm/hamzaNorm.pl
+++ b/src/hamzaNorm/hamzaNorm.pl
@@ -87,7 +87,7 @@ exit 0;
 sub normalize{
     my ($text) = @_;
     $text = " ".$text;    
-    $text =~ s/ (\330\242|\330\243|\330\245|\330\247)/ \330\247/g;
+    $text =~ s/(\s)(\330\242|\330\243|\330\245|\330\247)/$1\330\247/g;
     $text =~ s/^ //;
     $text;
 }
-- 
2.43.0


From 0e52297795e73f9520059afc47b1b590c711a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:57 +0000
Subject: [PATCH 50/96] fix: tanweenFilt left tanween before a tab and all but
 the last of several

---
 src/tanweenFilt/tanweenFilt.pl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tanweenFilt/tanweenFilt.pl b/src/tanweenFilt/tanweenFilt.pl
index 63fb9f0..a67a328 100755
--- a/src/tanweenFilt/tanweenFilt.pl
+++ b/src/tanweenFilt/tanweenFilt.pl
@@ -94,10 +94,7 @@ sub normalize{
     if ($AllTanween){
 	$text =~ s/(\331\215|\331\214|\331\213)//g;
     } else {
-	$text =~ s/(\331\215|\331\214|\331\213)$//g;
-	$text =~ s/(\331\215|\331\214|\331\213)\)$/\)/g;
-	$text =~ s/(\331\215|\331\214|\331\213)\) /\) /g;
-	$text =~ s/(\331\215|\331\214|\331\213) / /g;
+	$text =~ s/(\331\215|\331\214|\331\213)+(\)?)(?=\s|$)/$2/g;
     }
     $text =~ s/^ //;
     $text;
-- 
2.43.0


From 55b3e1c75aedf922a496e92cedd04fca00b0b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 51/96] fix: asclite dropped tokens after a trailing skippable
 alternative

---
 src/asclite/core/segment.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index f533389..a701108 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -227,8 +227,12 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
 	for(size_t i = 0 ; i < f_token->GetNbOfNextTokens() ; ++i)
     {
         Token* token = f_token->GetNextToken(i);
-        res.push_back(token);
-        ToTopologicalOrderedStruct(token, &res);
+        
+        if (find(res.begin(), res.end(), token) == res.end())
+        {
+            res.push_back(token);
+            ToTopologicalOrderedStruct(token, &res);
+        }
     }
 	
     return res;
@@ -239,17 +243,15 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
  */
 void Segment::ToTopologicalOrderedStruct(Token* start, vector<Token*>* doneNode)
 {
-    if (!isLastToken(start))
+    // A last token may still have next tokens in this segment, when what follows it can be skipped
+    for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
     {
-        for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
+        Token* token = start->GetNextToken(i);
+        
+        if (token->GetParentSegment() == this && find(doneNode->begin(), doneNode->end(), token) == doneNode->end())
         {
-            Token* token = start->GetNextToken(i);
-            
-            if (find(doneNode->begin(), doneNode->end(), token) == doneNode->end())
-            {
-                doneNode->push_back(token);
-                ToTopologicalOrderedStruct(token, doneNode);
-            }
+            doneNode->push_back(token);
+            ToTopologicalOrderedStruct(token, doneNode);
         }
     }
 }
-- 
2.43.0


From 990602d613ceb081a2fac03326d6e997bb708863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 52/96] fix: asclite lost the last alternative of a ctm file
 and misplaced the word after one

---
 src/asclite/core/ctm_inputparser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 63292a4..a8c4459 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -119,6 +119,9 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
 			{
 				isAltEnd = true;
 				isInsideAlt = false;
+				
+				if (alt_seg != NULL && prec_alt_tok != NULL)
+					alt_seg->AddLastToken(prec_alt_tok);
 			}
 			else if (string(text).compare("<ALT>") == 0)
 			{
@@ -138,8 +141,6 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     {
 						if (isAltEnd)
 						{
-                            alt_seg->AddLastToken(prec_alt_tok);
-                            
 							for (size_t i=0 ; i < alt_seg->GetNumberOfLastToken() ; ++i)
 							{
 								alt_seg->GetLastToken(i)->AddNextToken(tok);
@@ -224,10 +225,9 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     Segment* seg = Segment::CreateWithDuration(start_ms, dur_ms, speech);
                     seg->SetSource(string(f_file));
                     seg->SetChannel(string(channel));
-                    Token* tok = BuildToken(start_ms, dur_ms, string(text), alt_seg);
+                    Token* tok = BuildToken(start_ms, dur_ms, string(text), seg);
                     seg->AddFirstToken(tok);
                     seg->AddLastToken(tok);
-                    alt_seg->AddLastToken(prec_alt_tok);
                     
                     for (size_t i=0 ; i < alt_seg->GetNumberOfLastToken() ; ++i)
                     {
-- 
2.43.0


From 1093a210fbac2ae10fd7816f61bedb4d0acb0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:58 +0000
Subject: [PATCH 53/96] fix: asclite searched the words of an stm line by the
 digits of its times

---
 src/asclite/core/stm_inputparser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 2faab04..9945b1e 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -179,8 +179,9 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 				start = ParseString(string(start_char));
 				end = ParseString(string(end_char));
 				
-                wordsBegin = line.find(start_char)+1;
-                wordsBegin = line.find(end_char, wordsBegin)+string(end_char).size();
+                // the words start after the fifth field
+                sscanf(line.c_str(), "%*s %*s %*s %*s %*s%n", &wordsBegin);
+                lbl = "";
                 
                 if (nbArgParsed < 5)
                 {
-- 
2.43.0


From e2919a8d208a54f3ff0cff70874b28add34dbe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 54/96] fix: asclite matched two initial fragments by substring
 instead of prefix

---
 src/asclite/core/token.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/asclite/core/token.cpp b/src/asclite/core/token.cpp
index 5ad10e7..6897363 100644
--- a/src/asclite/core/token.cpp
+++ b/src/asclite/core/token.cpp
@@ -115,6 +115,8 @@ void Token::UpdateCleanedUpTextIfNeeded(const bool& force)
         optional = false;
     }
 
+    fragment = Token::NOT_FRAGMENT;
+
     //cout << "Start " << start << endl;
     if(segment->AreFragmentsCorrect())
     {
@@ -131,10 +133,6 @@ void Token::UpdateCleanedUpTextIfNeeded(const bool& force)
             --size;
         }
     }
-    else 
-    {
-        fragment = Token::NOT_FRAGMENT;
-    }	
     //cout << " Start " << start << " size " << size << " str " << sourceText.substr(start, size) << " frag? " << fragment <<  endl;
 }
 
@@ -292,7 +290,7 @@ bool Token::IsEquivalentTo(Token* token)
 			} 
             else if (otherFrag == BEGIN_FRAGMENT) 
             {
-				 return ((tok1.find(tok2, 0) != string::npos) || (tok2.find(tok1, 0) != string::npos));
+				 return ((tok1.find(tok2, 0) == 0) || (tok2.find(tok1, 0) == 0));
 			}
             else 
             {
-- 
2.43.0


From 5e4855b95a740136ac782c2c28fabbe1428bb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:41 +0000
Subject: [PATCH 55/96] fix: asclite ignored rttm confidences after the first
 missing one

---
 src/asclite/core/rttm_inputparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asclite/core/rttm_inputparser.cpp b/src/asclite/core/rttm_inputparser.cpp
index 2948841..b2ba985 100644
--- a/src/asclite/core/rttm_inputparser.cpp
+++ b/src/asclite/core/rttm_inputparser.cpp
@@ -132,7 +132,10 @@ SpeechSet* RTTMInputParser::loadFileLexeme(const string& name)
                 if(string(l_conf).compare("<NA>") == 0)
                     use_confidence = false;
                 else
+                {
+                    use_confidence = true;
                     confscr = atof(l_conf);
+                }
 				
 				string str_word = string(l_word);
 				
-- 
2.43.0


From bd2b492b611dd8e9680921c0995c3653c6051a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:01 +0000
Subject: [PATCH 56/96] fix: asclite -D both treated only the reference as
 optionally deletable

---
 src/asclite/core/levenshtein.cpp | 9 +++++++--
 src/asclite/core/stt_scorer.cpp  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/asclite/core/levenshtein.cpp b/src/asclite/core/levenshtein.cpp
index a3e9459..0acadd8 100644
--- a/src/asclite/core/levenshtein.cpp
+++ b/src/asclite/core/levenshtein.cpp
@@ -49,11 +49,16 @@ void Levenshtein::SetSegments(SegmentsGroup* segmentsGroup, SpeakerMatch* pSpeak
     bool opt_ref = false;
     bool opt_hyp = false;
 
-    if (string("both").compare(opt_case) == 0 || string("ref").compare(opt_case) == 0)
+    if (string("both").compare(opt_case) == 0)
+    {
+        opt_ref = true;
+        opt_hyp = true;
+    }
+    else if (string("ref").compare(opt_case) == 0)
     {
         opt_ref = true;
     }
-    else if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
+    else if (string("hyp").compare(opt_case) == 0)
     {
         opt_hyp = true;
     }
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index 5a7bacd..b4ade26 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -44,11 +44,16 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
     bool opt_ref = false;
     bool opt_hyp = false;
   
-    if ("both" == opt_case  || "ref" == opt_case)
+    if ("both" == opt_case)
+    {
+        opt_ref = true;
+        opt_hyp = true;
+    }
+    else if ("ref" == opt_case)
     {
         opt_ref = true;
     }
-    else if ("both" == opt_case || "hyp" == opt_case)
+    else if ("hyp" == opt_case)
     {
         opt_hyp = true;
     }
-- 
2.43.0


From efffe182a8da5a76daa83b8978071a43b21e19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:22 +0000
Subject: [PATCH 57/96] fix: asclite ignored -spkrmap and a hypothesis title
 without a format

---
 src/asclite/core/main.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/asclite/core/main.cpp b/src/asclite/core/main.cpp
index dfb7cea..5b6d044 100644
--- a/src/asclite/core/main.cpp
+++ b/src/asclite/core/main.cpp
@@ -210,7 +210,6 @@ int main(int argc, char **argv)
 						hypfile.fileformat = string("trn");
 					else if(argv[arg_index][0] != '-')
 					{
-						arg_index--;
 						titlefound = true;
 						hypfile.fileformat = string("trn");
 						hypfile.title = string(argv[arg_index]);
@@ -366,7 +365,7 @@ int main(int argc, char **argv)
 		// spkrmap
 		if(strcmp(argv[arg_index], "-spkrmap") == 0)
 		{
-			arg_bcheckspkrmap = false;
+			arg_bcheckspkrmap = true;
 		}
 		else
 		// Utterance
-- 
2.43.0


From 2dd971fb69f7c277b719d47977162dd843882c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:43 +0000
Subject: [PATCH 58/96] fix: asclite mixed the alignments and counts of several
 systems

---
 src/asclite/core/alignedsegment.cpp         | 16 ++++++++++---
 src/asclite/core/alignedsegment.h           |  5 +++--
 src/asclite/core/ctmstmrttm_segmentor.cpp   | 25 +++++++++------------
 src/asclite/core/rawsys_reportgenerator.cpp | 13 +++++++++++
 src/asclite/core/sgml_reportgenerator.cpp   | 18 ++++++++++-----
 src/asclite/core/stt_scorer.cpp             |  5 +++++
 6 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/src/asclite/core/alignedsegment.cpp b/src/asclite/core/alignedsegment.cpp
index e061af4..c1ddbf9 100644
--- a/src/asclite/core/alignedsegment.cpp
+++ b/src/asclite/core/alignedsegment.cpp
@@ -56,7 +56,7 @@ string AlignedSegment::ToString()
 	return result;
 }
 
-TokenAlignment* AlignedSegment::GetTokenAlignmentFor(Token* reference, const bool& create)
+TokenAlignment* AlignedSegment::GetTokenAlignmentFor(Token* reference, const bool& create, const size_t position)
 {	
 	TokenAlignment* ta = m_refToAlignments[reference];
 	
@@ -67,7 +67,11 @@ TokenAlignment* AlignedSegment::GetTokenAlignmentFor(Token* reference, const boo
 	}
 	
 	ta = new TokenAlignment(reference);		
-	m_tokenAlignments.push_back(ta);
+	m_tokenAlignments.insert(m_tokenAlignments.begin() + position, ta);
+	
+	for(map<string, size_t>::iterator i = m_nextPosition.begin(); i != m_nextPosition.end(); ++i)
+		if(i->second > position)
+			++(i->second);
 	
 	// don't add ta to the map if it's not associated to a non-NULL reference
 	if(reference != NULL)
@@ -85,5 +89,11 @@ int AlignedSegment::AddTokenAlignment(Token* reference, const string& hypKey, To
 		return -1;
 	}
 	
-	return GetTokenAlignmentFor(reference, true)->AddAlignmentFor(hypKey, hypothesis);
+	// An alignment new to this segment goes right after the previous one of the same
+	// system: the systems which are already there keep their own order.
+	TokenAlignment* ta = GetTokenAlignmentFor(reference, true, m_nextPosition[hypKey]);
+	
+	m_nextPosition[hypKey] = (find(m_tokenAlignments.begin(), m_tokenAlignments.end(), ta) - m_tokenAlignments.begin()) + 1;
+	
+	return ta->AddAlignmentFor(hypKey, hypothesis);
 }
diff --git a/src/asclite/core/alignedsegment.h b/src/asclite/core/alignedsegment.h
index 08a9350..d58251c 100644
--- a/src/asclite/core/alignedsegment.h
+++ b/src/asclite/core/alignedsegment.h
@@ -65,7 +65,7 @@ class AlignedSegment
          * or NULL if no such TokenAlignment exists.
          * @param reference the reference Token which associated TokenAlignment is to be retrieved
          */
-        TokenAlignment* GetTokenAlignmentFor(Token* reference) { return GetTokenAlignmentFor(reference, false); }
+        TokenAlignment* GetTokenAlignmentFor(Token* reference) { return GetTokenAlignmentFor(reference, false, 0); }
 
         /** Returns a string representation of this AlignedSegment */
         string ToString();
@@ -78,9 +78,10 @@ class AlignedSegment
         vector< TokenAlignment* > m_tokenAlignments;
         Segment* m_referenceSegment;
         map< Token*, TokenAlignment* > m_refToAlignments;
+        map< string, size_t > m_nextPosition; // where the next alignment of a system goes
         ulint m_SegGrpID;
         
-        TokenAlignment* GetTokenAlignmentFor(Token* ref, const bool& create);
+        TokenAlignment* GetTokenAlignmentFor(Token* ref, const bool& create, const size_t position);
 };
 
 #endif
diff --git a/src/asclite/core/ctmstmrttm_segmentor.cpp b/src/asclite/core/ctmstmrttm_segmentor.cpp
index 0c67c79..47fe77e 100644
--- a/src/asclite/core/ctmstmrttm_segmentor.cpp
+++ b/src/asclite/core/ctmstmrttm_segmentor.cpp
@@ -46,24 +46,21 @@ CTMSTMRTTMSegmentor::~CTMSTMRTTMSegmentor()
 
 void CTMSTMRTTMSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 {
-    if (references != refs)
-    {
-        refs = references;
-        //init the source and Channel list
-        sourceList.clear();
-        channelList.clear();
+    refs = references;
+    //init the source and Channel list
+    sourceList.clear();
+    channelList.clear();
     
-        for (size_t i=0 ; i < references->GetNumberOfSpeech(); ++i)
+    for (size_t i=0 ; i < references->GetNumberOfSpeech(); ++i)
+    {
+        for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
         {
-            for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
-            {
-                Segment* seg = references->GetSpeech(i)->GetSegment(j);
-                sourceList.insert(seg->GetSource());
-                channelList[seg->GetSource()].insert(seg->GetChannel());
-            }
+            Segment* seg = references->GetSpeech(i)->GetSegment(j);
+            sourceList.insert(seg->GetSource());
+            channelList[seg->GetSource()].insert(seg->GetChannel());
         }
     }
-	
+
     hyps = hypothesis;
     
     //init the iterator
diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 5ee7873..07d66f4 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -225,6 +225,14 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 	vector<double> VecPctCorrectWordsNotNull, VecPctSubstitutionsNotNull, VecPctSpeakerErrorsNotNull, VecPctDeletionsNotNull, VecPctInsertionsNotNull, VecPctErrorsNotNull, VecPctSegmentsErrors;
 	vector<double> VecNCENotNull;
 	
+	// the counts are those of this system only
+	for(i=m_MapDatas.begin(); i!=m_MapDatas.end(); ++i)
+		if(i->second)
+			delete i->second;
+	
+	m_MapDatas.clear();
+	m_SumTotConfidenceCorrect = m_SumTotConfidenceIncorrect = 0.0;
+	
 	/* TODO catch datas */
 	AlignedSpeechIterator* aAlignedSpeechs;
 	AlignedSpeech* aAlignedSpeechCurrent;
@@ -257,6 +265,11 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 			{
 				aTokenAlignmentCurrent = aAlignedSegmentCurrent->GetTokenAlignmentAt(j);
 				aAlignmentEvaluation = aTokenAlignmentCurrent->GetAlignmentFor(systm);
+				
+				// what only another system has at this place
+				if(aAlignmentEvaluation == NULL)
+					continue;
+				
 				aAlignmentResult = aAlignmentEvaluation->GetResult();
 				aToken = aAlignmentEvaluation->GetToken();
 				
diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index bedd4f7..6af5473 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -104,7 +104,7 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
             {
                 if (aAlignedSegmentCurrent->GetTokenAlignmentCount() != 0)
                 {
-                    Token* token = aAlignedSegmentCurrent->GetTokenAlignmentAt(0)->GetAlignmentFor(systm)->GetToken();
+                    Token* token = aAlignedSegmentCurrent->GetTokenAlignmentAt(0)->GetTokenFor(systm);
 				  
                     if(token != NULL) 
                     {
@@ -230,7 +230,15 @@ void SGMLReportGenerator::GeneratePath(AlignedSegment* alignedSegment, const str
 	Segment* refSegment = alignedSegment->GetReferenceSegment();
 	output << "<PATH";
 	output << " id=\"" << refSegment->GetId() << "\"";
-	output << " word_cnt=\"" << alignedSegment->GetTokenAlignmentCount() << "\"";
+	
+	// leave out what only another system has in this segment
+	vector<TokenAlignment*> tokenAligns;
+	
+	for(size_t i = 0; i < alignedSegment->GetTokenAlignmentCount(); ++i)
+		if(alignedSegment->GetTokenAlignmentAt(i)->GetAlignmentFor(systm) != NULL)
+			tokenAligns.push_back(alignedSegment->GetTokenAlignmentAt(i));
+	
+	output << " word_cnt=\"" << tokenAligns.size() << "\"";
 	
 	if(refSegment->GetLabel() != "")
 		output << " labels=\"" << refSegment->GetLabel() << "\"";
@@ -257,16 +265,16 @@ void SGMLReportGenerator::GeneratePath(AlignedSegment* alignedSegment, const str
 	
 	output << ">" << endl;
 	
-	size_t tokenNumber = alignedSegment->GetTokenAlignmentCount();
+	size_t tokenNumber = tokenAligns.size();
 	
 	if (tokenNumber > 0)
 	{
-		GenerateTokenAlignment(alignedSegment->GetTokenAlignmentAt(0), systm, output);
+		GenerateTokenAlignment(tokenAligns[0], systm, output);
 		
 		for(size_t i = 1; i < tokenNumber; i++)
 		{
 			output << ":";
-			GenerateTokenAlignment(alignedSegment->GetTokenAlignmentAt(i), systm, output);
+			GenerateTokenAlignment(tokenAligns[i], systm, output);
 		}
 	}
 	
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index b4ade26..892fa63 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -81,6 +81,11 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
 				{
 					string hyp_key = alignment->GetSystem(i);
 					TokenAlignment::AlignmentEvaluation* ae = tokenAlign->GetAlignmentFor(hyp_key);
+					
+					// what only another system has at this place
+					if(ae == NULL)
+						continue;
+					
 					Token* hyp = ae->GetToken();
 					
 					if (ref == NULL)
-- 
2.43.0


From 3f085d5bc3738abb73d2f7cd3974a8c8d6f0af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:07 +0000
Subject: [PATCH 59/96] fix: asclite crashed in the sgml report when every
 group was skipped

---
 src/asclite/core/sgml_reportgenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index 6af5473..8f9b418 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -166,7 +166,8 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
 	output << " weight_filename=" << "\"" << weight_filename << "\"";
 	output << ">" << endl;
 	
-	GenerateCategoryLabel(parentSpeechSet, output);
+	if(parentSpeechSet)
+		GenerateCategoryLabel(parentSpeechSet, output);
 	
 	m_bRefHasTimes = m_bRefHasConf = m_bHypHasConf = m_bHypHasTimes = false;
 	Speakers::iterator current = speakers.begin();
-- 
2.43.0


From 345b16ec8c92b2262135fe3a4ef51e4f2d58e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:33 +0000
Subject: [PATCH 60/96] fix: asclite could not skip an alternative made of
 several skippable parts

---
 src/asclite/core/linestyle_inputparser.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/asclite/core/linestyle_inputparser.cpp b/src/asclite/core/linestyle_inputparser.cpp
index 9d621bd..47090e1 100644
--- a/src/asclite/core/linestyle_inputparser.cpp
+++ b/src/asclite/core/linestyle_inputparser.cpp
@@ -161,13 +161,6 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
 			if (t_words[i].find(string(" ")) != string::npos)
             {
                 toks = ParseWords(seg, t_words[i], bOptionallyDeletable);
-				
-                if (toks->IsTraversable())
-                {
-                    //only set the containing structur as traversable if it contain one token
-                    if (t_words.size() == 1)
-                        out_struct->SetTraversable(true);
-                }
             }
             else
             {
@@ -279,6 +272,10 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
 				delete toks;
         }
 		
+		//the containing structure is traversable if everything it contains is
+		if (isFirstWord)
+			out_struct->SetTraversable(true);
+		
 		if(prec_token && (prec_token != out_struct))
             delete prec_token;
 		
-- 
2.43.0


From ec134bed3fb40a4c0ed9250bf9ef51de28640269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:07 +0000
Subject: [PATCH 61/96] fix: asclite crashed on a trn system without every
 utterance, or on a second one

---
 src/asclite/core/trntrn_segmentor.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/asclite/core/trntrn_segmentor.cpp b/src/asclite/core/trntrn_segmentor.cpp
index 0991331..096021e 100644
--- a/src/asclite/core/trntrn_segmentor.cpp
+++ b/src/asclite/core/trntrn_segmentor.cpp
@@ -25,19 +25,16 @@ Logger* TRNTRNSegmentor::logger = Logger::getLogger();
 
 void TRNTRNSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 {
-    if (references != refs)
+    refs = references;
+    //init the uterance id list
+    uteranceList.clear();
+
+    for (size_t i=0 ; i < references->GetNumberOfSpeech() ; ++i)
     {
-        refs = references;
-        //init the uterance id list
-        uteranceList.clear();
-    
-        for (size_t i=0 ; i < references->GetNumberOfSpeech() ; ++i)
+        for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
         {
-            for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
-            {
-                Segment* seg = references->GetSpeech(i)->GetSegment(j);
-                uteranceList.insert(seg->GetId());
-            }
+            Segment* seg = references->GetSpeech(i)->GetSegment(j);
+            uteranceList.insert(seg->GetId());
         }
     }
   
@@ -52,7 +49,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
     SegmentsGroup* segGroup = new SegmentsGroup();
     bool foundIt = false;
   
-    for (size_t j=0 ; refs->GetNumberOfSpeech() ; ++j)
+    for (size_t j=0 ; j < refs->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < refs->GetSpeech(j)->NbOfSegments() ; ++i)
         {
@@ -74,7 +71,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
         }
     }
     
-    for (size_t j=0 ; hyps->GetNumberOfSpeech(); ++j)
+    for (size_t j=0 ; j < hyps->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < hyps->GetSpeech(j)->NbOfSegments() ; ++i)
         {
-- 
2.43.0


From 5fc882b1af032d0abed570dc7676b5e6132f662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:50 +0000
Subject: [PATCH 62/96] fix: asclite applied the uem of a file to files whose
 names begin with its name

---
 src/asclite/core/uemfilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index cd15ae5..b953585 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -44,7 +44,7 @@ void UEMFilter::FindElement(const string& file, const string& channel, list<UEME
 
 	for(size_t i=0; i<m_VectUEMElements.size(); ++i)
 		if(m_VectUEMElements[i])
-			if( (file.find(m_VectUEMElements[i]->GetFile(), 0) == 0) && (channel.compare(m_VectUEMElements[i]->GetChannel()) == 0) )
+			if( (file.compare(m_VectUEMElements[i]->GetFile()) == 0) && (channel.compare(m_VectUEMElements[i]->GetChannel()) == 0) )
 				pList->push_back(m_VectUEMElements[i]);
 }
 
-- 
2.43.0


From 71e5190e79733b3aa80a24165ce6866074c0da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:43 +0000
Subject: [PATCH 63/96] fix: asclite crashed, or lost words, when a uem removed
 a reference segment

---
 src/asclite/core/speech.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/asclite/core/speech.cpp b/src/asclite/core/speech.cpp
index 008bfc6..8fc2dc8 100644
--- a/src/asclite/core/speech.cpp
+++ b/src/asclite/core/speech.cpp
@@ -154,7 +154,14 @@ void Speech::RemoveSegment(Segment* currentSegment)
 			for(size_t p=0; p<firstToken->GetNbOfPrecTokens(); ++p)
 			{
 				Token* previousTokenofFirstToken = firstToken->GetPrecToken(p);
-				listPreviousTokenofFirstToken.push_back(previousTokenofFirstToken);
+				
+				// Inside of the segment
+				if(previousTokenofFirstToken->GetParentSegment() == currentSegment)
+					continue;
+				
+				if(find(listPreviousTokenofFirstToken.begin(), listPreviousTokenofFirstToken.end(), previousTokenofFirstToken) == listPreviousTokenofFirstToken.end())
+					listPreviousTokenofFirstToken.push_back(previousTokenofFirstToken);
+				
 				previousTokenofFirstToken->UnlinkNextToken(firstToken);
 			}
 		}
@@ -170,7 +177,14 @@ void Speech::RemoveSegment(Segment* currentSegment)
 			for(size_t n=0; n<lastToken->GetNbOfNextTokens(); ++n)
 			{
 				Token* nextTokenofLastToken = lastToken->GetNextToken(n);
-				listNextTokenofLastToken.push_back(nextTokenofLastToken);
+				
+				// Inside of the segment
+				if(nextTokenofLastToken->GetParentSegment() == currentSegment)
+					continue;
+				
+				if(find(listNextTokenofLastToken.begin(), listNextTokenofLastToken.end(), nextTokenofLastToken) == listNextTokenofLastToken.end())
+					listNextTokenofLastToken.push_back(nextTokenofLastToken);
+				
 				nextTokenofLastToken->UnlinkPrevToken(lastToken);
 			}
 		}
@@ -179,11 +193,12 @@ void Speech::RemoveSegment(Segment* currentSegment)
 	// Re-attach the tokens
 	list<Token*>::iterator prev  = listPreviousTokenofFirstToken.begin();
 	list<Token*>::iterator eprev = listPreviousTokenofFirstToken.end();
-	list<Token*>::iterator next  = listNextTokenofLastToken.begin();
 	list<Token*>::iterator enext = listNextTokenofLastToken.end();
 	
 	while(prev != eprev)
 	{
+		list<Token*>::iterator next = listNextTokenofLastToken.begin();
+		
 		while(next != enext)
 		{
 			(*prev)->AddNextToken(*next);
-- 
2.43.0


From 88cca929560fb0a97173ec8adceee7f171da8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:36 +0000
Subject: [PATCH 64/96] fix: asclite's standard deviation was garbage for one
 speaker or equal values

---
 src/asclite/core/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/statistics.cpp b/src/asclite/core/statistics.cpp
index 53ec683..40b495e 100644
--- a/src/asclite/core/statistics.cpp
+++ b/src/asclite/core/statistics.cpp
@@ -51,7 +51,7 @@ void Statistics::Compute()
 		}
 		
 		m_Mean = m_Sum/((double) m_VecValues.size());
-		m_SD = sqrt((n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)));
+		m_SD = (n > 1) ? sqrt(max(0.0, (n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)))) : 0.0;
 		
 		if(m_VecValues.size()%2 == 0)
 			m_Median = (m_VecValues[m_VecValues.size()/2]+m_VecValues[m_VecValues.size()/2-1])/2.0;
-- 
2.43.0


From 23f29ea1c918988a20a2b6ecfbef6bcf43a35b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:01 +0000
Subject: [PATCH 65/96] fix: asclite lost a report whose file cannot be written
 instead of printing it

---
 src/asclite/core/rawsys_reportgenerator.cpp | 5 ++---
 src/asclite/core/sgml_reportgenerator.cpp   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 07d66f4..ab391d7 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -913,7 +913,6 @@ void RAWSYSReportGenerator::Generate(Alignment* alignment, int where)
 			if(! file.is_open())
 			{
 				LOG_ERR(logger, "Could not open file '" + filename + "' for " + extensionfile + " report, the output will be redirected in the stdout to avoid any lost.");
-				where = 1;
 			}
 			else
 			{
@@ -925,10 +924,10 @@ void RAWSYSReportGenerator::Generate(Alignment* alignment, int where)
 			LOG_INFO(logger, "Generating " + extensionfile + " report in the stdout.");
 		}
 		
-		ostream output(where == 1 ? file.rdbuf() : cout.rdbuf());
+		ostream output(file.is_open() ? file.rdbuf() : cout.rdbuf());
 		GenerateSystem(alignment, alignment->GetSystem(i), output);
 		
-		if(where == 1)
+		if(file.is_open())
 			file.close(); 
 	}
 }
diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index 8f9b418..9c5c5b3 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -46,7 +46,6 @@ void SGMLReportGenerator::Generate(Alignment* alignment, int where)
 			if(! file.is_open())
 			{
 				LOG_ERR(m_pLogger, "Could not open file '" + filename + "' for SGML report, the output will be redirected in the stdout to avoid any lost.");
-				where = 1;
 			}
 			else
 			{
@@ -58,10 +57,10 @@ void SGMLReportGenerator::Generate(Alignment* alignment, int where)
 			LOG_INFO(m_pLogger, "Generating SGML report in the stdout.");
 		}
 		
-		ostream output(where == 1 ? file.rdbuf() : cout.rdbuf());
+		ostream output(file.is_open() ? file.rdbuf() : cout.rdbuf());
 		GenerateSystem(alignment, alignment->GetSystem(i), output);
 		
-		if(where == 1)
+		if(file.is_open())
 			file.close();
 	}
 }
-- 
2.43.0


From d64b310b58182b9b1caac2ed69df4ef5d7ed7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 66/96] fix: asclite's total NCE overflowed instead of showing
 infinity

---
 src/asclite/core/rawsys_reportgenerator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index ab391d7..411d45e 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -648,7 +648,12 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 		AddStringText(output, 100.0*StatisticsSegmentsErrors.GetSum()/StatisticsSegments.GetSum(1), 1, "right", sizeofSegmentsErrors);
 	
 	output << " | ";
-	AddStringText(output, GetTotalNCE(StatisticsCorrectWords.GetSum(), StatisticsInsertions.GetSum(), StatisticsSubstitutions.GetSum(), StatisticsSpeakerErrors.GetSum()), 3, "middle", sizeofNCE);
+	double totalNCE = GetTotalNCE(StatisticsCorrectWords.GetSum(), StatisticsInsertions.GetSum(), StatisticsSubstitutions.GetSum(), StatisticsSpeakerErrors.GetSum());
+	
+	if(fabs(totalNCE) <= 1000.0)
+		AddStringText(output, totalNCE, 3, "middle", sizeofNCE);
+	else
+		AddStringText(output, (totalNCE < 0.0) ? "-inf" : "+inf", "middle", sizeofNCE);
 	
 	output << " |" << endl;
 	
-- 
2.43.0


From 4e21548457befc02d6694a1d2ca640c431d31ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 67/96] fix: asclite's sgml report had no hypothesis file name
 when segments begin with deletions

---
 src/asclite/core/sgml_reportgenerator.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index 9c5c5b3..05682fb 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -99,18 +99,15 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
 		
 		while(aAlignedSegments->Current(&aAlignedSegmentCurrent))
 		{
-			if(!fileNamesSet)
-            {
-                if (aAlignedSegmentCurrent->GetTokenAlignmentCount() != 0)
-                {
-                    Token* token = aAlignedSegmentCurrent->GetTokenAlignmentAt(0)->GetTokenFor(systm);
-				  
-                    if(token != NULL) 
-                    {
-                        hyp_fname = token->GetParentSegment()->GetParentSpeech()->GetParentSpeechSet()->GetSourceFileName();
-                        fileNamesSet = true;
-                    }
-                }
+			for(size_t i = 0; !fileNamesSet && i < aAlignedSegmentCurrent->GetTokenAlignmentCount(); ++i)
+			{
+				Token* token = aAlignedSegmentCurrent->GetTokenAlignmentAt(i)->GetTokenFor(systm);
+				
+				if(token != NULL)
+				{
+					hyp_fname = token->GetParentSegment()->GetParentSpeech()->GetParentSpeechSet()->GetSourceFileName();
+					fileNamesSet = true;
+				}
 			}
 			
 			// First try to get the speaker associated with the current reference segment
-- 
2.43.0


From f9ea37ab5204dcaee55e2f471d0a359b59f5fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:39 +0000
Subject: [PATCH 68/96] fix: AUTO_LEX_find returned a position in the sorted
 order where callers need the entry

---
 src/sclite/alex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/alex.c b/src/sclite/alex.c
index d763550..51a07e5 100644
--- a/src/sclite/alex.c
+++ b/src/sclite/alex.c
@@ -56,7 +56,7 @@ int AUTO_LEX_find(AUTO_LEX *alex, TEXT *str){
   int success = 0;
   int ind = index_search(alex,str,&success);
   if (success)
-    return(ind);
+    return(alex->sort[ind]);
   return(-1);
 }
 
-- 
2.43.0


From 3c078bb6d795587389ff880d33e24da4280550f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 69/96] fix: range tables started from high 0 and low 100, and
 grange2 names and formats overran fixed buffers

---
 src/sclite/range.c | 57 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index 2d36a5b..d691ffc 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -101,8 +101,7 @@ static void do_blk_ranges(RANK *rank, int scale, char *p_desc, char *tname, FILE
 
     /**** find the high, low, and the standard deviation for each block */
     for (i=0;i< rank->n_blk ;i++){
-        high[i] = 0.0;
-        low[i] = 100.0;
+        high[i] = low[i] = rank->pcts [ i ][ 0 ] ;
         mean[i] = 0.0;
         for (j=0;j< rank->n_trt ;j++){
             if (rank->pcts [ i ][ j ]  > high[i])
@@ -153,8 +152,7 @@ static void do_trt_ranges(RANK *rank, int scale, char *p_desc, char *tname, FILE
 
     /**** find the high, low, and the standard deviation for each treatment*/
     for (i=0;i< rank->n_trt ;i++){
-        high[i] = 0.0;
-        low[i] = 100.0;
+        high[i] = low[i] = (rank->n_blk > 0) ? rank->pcts [ 0 ][ i ] : 0.0;
         mean[i] = 0.0;
         for (j=0;j< rank->n_blk ;j++){
             if (rank->pcts [ j ][ i ]  > high[i])
@@ -470,8 +468,9 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     int b,t;
     FILE *fp_dat, *fp_mean, *fp_plt, *fp_median;
     double sum;
-    char mean_name[50], dat_name[50], plt_name[50], basename[50];
-    char median_name[50];
+    TEXT *mean_name = (TEXT *)0, *dat_name = (TEXT *)0;
+    TEXT *plt_name = (TEXT *)0, *basename = (TEXT *)0;
+    TEXT *median_name = (TEXT *)0;
     double *pctt, *rnkk;
     int *ind;
 
@@ -479,31 +478,31 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     alloc_singarr(rnkk,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(ind,MAX( rank->n_blk , rank->n_trt ),int);
 
-    sprintf(basename,"%s%s",(strcmp(base,"-")==0) ? "STATS" : base,
-	    (for_blks) ? ".spk" : ".sys");
-    sprintf(dat_name,"%s%s",basename,".dat");
+    basename = TEXT_strdup((TEXT *)rsprintf("%s%s",(strcmp(base,"-")==0) ? "STATS" : base,
+	    (for_blks) ? ".spk" : ".sys"));
+    dat_name = TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".dat"));
     /* make the datafiles for the treatements */
-    if ((fp_dat = fopen(dat_name,"w")) == (FILE *)0){
+    if ((fp_dat = fopen((char *)dat_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		dat_name);
 	exit(1);
     } else
 	if (feedback >= 1) printf("        Output written to '%s.*'\n",basename);
 
-    sprintf(mean_name,"%s%s",basename,".mean");
-    if ((fp_mean = fopen(mean_name,"w")) == (FILE *)0){
+    mean_name = TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".mean"));
+    if ((fp_mean = fopen((char *)mean_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		mean_name);
 	exit(1);
     }
-    sprintf(median_name,"%s%s",basename,".median");
-    if ((fp_median = fopen(median_name,"w")) == (FILE *)0){
+    median_name = TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".median"));
+    if ((fp_median = fopen((char *)median_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		median_name);
 	exit(1);
     }
-    sprintf(plt_name,"%s%s",basename,".plt");
-    if ((fp_plt = fopen(plt_name,"w")) == (FILE *)0){
+    plt_name = TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".plt"));
+    if ((fp_plt = fopen((char *)plt_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT file %s\n",
 		plt_name);
 	exit(1);
@@ -555,13 +554,11 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 	fprintf(fp_plt,"     \"%s\" using 2:1 title \"Median %s\" with lines",
 		median_name, percent_desc);
 	for (t=0;t< rank->n_trt ;t++){
-	    char fmt[100]; int x;
-	    strcpy(fmt,"%lf");
+	    int x;
+	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%%lf",dat_name);
 	    for (x=0; x<t; x++)
-		strcat(fmt,"%*s");
-	    strcat(fmt,"%lf");
-	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%s\" title \"%s\"",
-		    dat_name,fmt,rank->trt_name[t]);
+		fprintf(fp_plt,"%%*s");
+	    fprintf(fp_plt,"%%lf\" title \"%s\"",rank->trt_name[t]);
 	}
 	fprintf(fp_plt,"\n");
     } else {
@@ -602,13 +599,11 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 	fprintf(fp_plt,"     \"%s\" using 2:1 title \"Median %s\" with lines",
 		median_name, percent_desc);
 	for (b=0;b< rank->n_blk ;b++){
-	    char fmt[100]; int x;
-	    strcpy(fmt,"%lf");
+	    int x;
+	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%%lf",dat_name);
 	    for (x=0; x<b; x++)
-		strcat(fmt,"%*s");
-	    strcat(fmt,"%lf");
-	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%s\" title \"%s\"",
-		    dat_name,fmt,rank->blk_name[b]);
+		fprintf(fp_plt,"%%*s");
+	    fprintf(fp_plt,"%%lf\" title \"%s\"",rank->blk_name[b]);
 	}
 	fprintf(fp_plt,"\n");
     }
@@ -618,6 +613,12 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     fclose(fp_median);
     fclose(fp_plt);
 
+    free_singarr(mean_name  , TEXT);
+    free_singarr(dat_name   , TEXT);
+    free_singarr(plt_name   , TEXT);
+    free_singarr(basename   , TEXT);
+    free_singarr(median_name, TEXT);
+
     free_singarr(pctt,double);
     free_singarr(rnkk,double);
     free_singarr(ind,int);
-- 
2.43.0


From 7c9a5384fb6b1c6ca865f6991591224a7dde2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:26 +0000
Subject: [PATCH 70/96] fix: parallel alignments dropped speakers after one a
 system lacks, mixed up paths of reordered speakers, glued words and
 miscounted unequal references

---
 src/sclite/corresp.c | 52 +++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index e004b54..116171e 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -93,6 +93,7 @@ void dump_paths_of_SC_CORRESPONDENCE(SC_CORRESPONDENCE *corresp, int maxlen, FIL
 
       if (score_diff && ! scores_are_diff(path_set,corresp->nscor))
 	to_print = 0;
+      refWord = errRefWord = 0;
       if (to_print)
 	PATH_multi_print(corresp->scor, path_set,corresp->nscor, maxlen, fp, &refWord, &errRefWord, &alex);
       totRefWord += refWord;
@@ -153,11 +154,8 @@ void find_matched_grp(SC_CORRESPONDENCE *corresp){
       if (gr == corresp->scor[sc]->num_grp)
 	break;
     }
-    if (sc < corresp->nscor)
-      break;
-
-    corresp->num_grp++;
-    
+    if (sc == corresp->nscor)
+      corresp->num_grp++;
   }
 
   /* look to see if any speakers are not in common */
@@ -192,7 +190,7 @@ void find_matched_paths(SC_CORRESPONDENCE *corresp){
 	 mpa < corresp->scor[0]->grp[corresp->grp[gr]->grp_ptr[0]].num_path;
 	 mpa++){
       /* set the next path to mpa */
-      corresp->grp[corresp->grp[gr]->grp_ptr[0]]->path_ptr[*np][0] = mpa;
+      corresp->grp[gr]->path_ptr[*np][0] = mpa;
       
       /* search all the other scor strucs for a matching id */
       for (sc=1; sc<corresp->nscor; sc++){
@@ -294,7 +292,7 @@ static int identical_refs(int npaths,PATH **paths){
       if (w >= paths[0]->num && wp >= paths[p]->num)
 	;
       else {
-	if (w > paths[0]->num || wp > paths[p]->num)
+	if (w >= paths[0]->num || wp >= paths[p]->num)
 	  return 0;
 	if (TEXT_strcmp(((WORD *)(paths[0]->pset[w].a_ptr))->value,
 			((WORD *)(paths[p]->pset[wp].a_ptr))->value) != 0)
@@ -302,6 +300,13 @@ static int identical_refs(int npaths,PATH **paths){
 	w++; wp++;
       }
     }    
+    /* only insertions may follow the last pair of reference words */
+    for (; w < paths[0]->num; w++)
+      if (paths[0]->pset[w].eval != P_INS)
+	return 0;
+    for (; wp < paths[p]->num; wp++)
+      if (paths[p]->pset[wp].eval != P_INS)
+	return 0;
   }
   return 1;
 }
@@ -335,7 +340,7 @@ static void lattice_error(int npaths,PATH **paths, int *refWord, int *refErrRefW
       if (w >= paths[0]->num && wp >= paths[p]->num)
 	;
       else {
-	if (w > paths[0]->num || wp > paths[p]->num){
+	if (w >= paths[0]->num || wp >= paths[p]->num){
 	  fprintf(stderr,"Error: these paths are not compatible");
 	  exit(1);
 	}
@@ -457,11 +462,9 @@ static void process_inserts(SCORES **scor, PATH **path_set, int npath, int *pset
 
   *outlen += max;
 
-  if (1 + *outlen < maxlen-1){
-    for (p=0; p<=npath; p++)
-      TEXT_strcat(outbuf[p],(TEXT *)" ");
-    *outlen += 1;
-  }
+  for (p=0; p<=npath; p++)
+    TEXT_strcat(outbuf[p],(TEXT *)" ");
+  *outlen += 1;
 }
 
 static void process_rest(SCORES **scor, PATH **path_set, int npath, int *psets, TEXT **outbuf, int *outlen, int maxlen, FILE *fp){
@@ -511,11 +514,9 @@ static void process_rest(SCORES **scor, PATH **path_set, int npath, int *psets,
   }
   *outlen += max;
 
-  if (1 + *outlen < maxlen-1){
-    for (p=0; p<=npath; p++)
-      TEXT_strcat(outbuf[p],(TEXT *)" ");
-    *outlen += 1;
-  }
+  for (p=0; p<=npath; p++)
+    TEXT_strcat(outbuf[p],(TEXT *)" ");
+  *outlen += 1;
 }
 
 /* Pretty print n paths, using the ref transcript as the guide */
@@ -533,7 +534,7 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
       PATH_print(path_set[p],fp,maxlen);
     }
   } else {
-    int outlen, *psets;
+    int outlen, *psets, maxword = 0;
     TEXT **outbuf;
 
     lattice_error(npath, path_set, refWord, errRefWord, alex);
@@ -571,7 +572,18 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
     fprintf(fp,"\n\n");
     
     /* output[npath] is the reference string */
-    alloc_2dimZ(outbuf,npath + 1,maxlen+1+40,TEXT,(TEXT)'\0');
+    for (p=0; p<npath; p++){
+      int w, l;
+      for (w=0; w<path_set[p]->num; w++){
+	if (path_set[p]->pset[w].a_ptr != (void *)0 &&
+	    (l = TEXT_strlen(((WORD *)path_set[p]->pset[w].a_ptr)->value)) > maxword)
+	  maxword = l;
+	if (path_set[p]->pset[w].b_ptr != (void *)0 &&
+	    (l = TEXT_strlen(((WORD *)path_set[p]->pset[w].b_ptr)->value)) > maxword)
+	  maxword = l;
+      }
+    }
+    alloc_2dimZ(outbuf,npath + 1,maxlen+1+40+maxword,TEXT,(TEXT)'\0');
     alloc_1dimZ(psets,npath,int,0);   /* initialized to zero */
     add_header_data(scor, path_set, npath, outbuf, &outlen, maxlen, 0);
     while (more_data(path_set, npath, psets) > 0){
-- 
2.43.0


From 90d4edaf5a6345678a6ba022d3f7e12237911f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:49 +0000
Subject: [PATCH 71/96] fix: sc_stats read an uninitialised flag unless given
 -p

---
 src/sclite/sc_stats.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index 049479e..8224981 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -306,6 +306,7 @@ void proc_arcs(int argc, char **argv, char *prog, char **pralign, int *npralign,
 
     *feedback=1;
     *npralign = 0;
+    *pipein = 0;
     *pralign =(char *)0;
     *out_dir = (char *)0;
     *stats = *stats_verbose = *stats_unified = *stats_graphs = 0;    
-- 
2.43.0


From 332cca06b436d2db8af9f960a6896f1315576224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:15 +0000
Subject: [PATCH 72/96] fix: summary of several systems paired speakers by
 position, and overran its format with many systems

---
 src/sclite/scores.c | 66 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index c52b2da..db999c7 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -951,7 +951,6 @@ int parse_input_comment_line(SCORES *sc, TEXT *buf){
 
 	/* parse the category line */
 	if (sc->aset.num_cat == sc->aset.max_cat){
-	    printf("Expanding\n");
 	    expand_singarr(sc->aset.cat,sc->aset.num_cat,
 			   sc->aset.max_cat,2,CATEGORY_ITEM);
 	}
@@ -1554,6 +1553,19 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
 
  
 
+/************************************************************************/
+/*   return the index of a speaker, or -1 if the system does not have it */
+/************************************************************************/
+static int find_grp_by_name(SCORES *sc, char *name)
+{
+    int g;
+
+    for (g=0; g<sc->num_grp; g++)
+	if (strcmp(sc->grp[g].name,name) == 0)
+	    return(g);
+    return(-1);
+}
+
 /************************************************************************/
 /*   print the report for the entire system.                            */
 /************************************************************************/
@@ -1561,8 +1573,8 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 {
     int s, g;
     FILE *fp;
-    char *fname, lfmt[50], dfmt[50], *tot_pct_fmt, *pct_fmt;
-    int prec, tprec, l;
+    char *fname, *lfmt, *dfmt, *tot_pct_fmt, *pct_fmt;
+    int prec, tprec, l, rs, max_grp = 0;
     int **wcount;
     double **errs;
     
@@ -1586,7 +1598,10 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     /* allocate memory, make enough room to contain the mean, variance, stddev,
        median and Z_stat */
-    alloc_2dimZ(errs,nsc,sc[0]->num_grp + 5,double,0.0);
+    for (s=0; s<nsc; s++)
+	if (max_grp < sc[s]->num_grp)
+	    max_grp = sc[s]->num_grp;
+    alloc_2dimZ(errs,nsc,max_grp + 5,double,0.0);
     alloc_2dimZ(wcount,nsc,2,int,0);
 
     /* calculate the percentages */
@@ -1610,14 +1625,16 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     /* calculate the statistics.  The errs array has enough room in it */
     /* to containg the mean, variancs, std_dev, median, std_dev and Z_STAT*/
     for (s=0; s<nsc; s++)
-	calc_mean_var_std_dev_Zstat_double(errs[s],sc[0]->num_grp,
-					   &(errs[s][sc[0]->num_grp]),
-					   &(errs[s][sc[0]->num_grp+1]),
-					   &(errs[s][sc[0]->num_grp+2]),
-					   &(errs[s][sc[0]->num_grp+3]),
-					   &(errs[s][sc[0]->num_grp+4]));
+	calc_mean_var_std_dev_Zstat_double(errs[s],sc[s]->num_grp,
+					   &(errs[s][max_grp]),
+					   &(errs[s][max_grp+1]),
+					   &(errs[s][max_grp+2]),
+					   &(errs[s][max_grp+3]),
+					   &(errs[s][max_grp+4]));
 
     /* build the format statements */
+    alloc_singarr(lfmt,2*nsc+2,char);
+    alloc_singarr(dfmt,2*nsc+2,char);
     sprintf(lfmt,"c");    sprintf(dfmt,"l");
     for (s=0; s<nsc; s++){
 	strcat(lfmt,"|c");    strcat(dfmt,"|c");
@@ -1649,16 +1666,27 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 	Desc_set_iterated_value(sc[s]->title);
     Desc_flush_iterated_row();
 
-    /* Set the data rows */	
-    for (g=0; g<sc[0]->num_grp; g++){
+    /* Set the data rows, the systems may list the speakers in any order */
+    for (rs=0; rs<nsc; rs++)
+      for (g=0; g<sc[rs]->num_grp; g++){
+	for (s=0; s<rs; s++)   /* already printed for an earlier system */
+	    if (find_grp_by_name(sc[s],sc[rs]->grp[g].name) >= 0)
+		break;
+	if (s < rs)
+	    continue;
 	Desc_add_row_separation('-',BEFORE_ROW);
 	Desc_set_iterated_format(dfmt); 
-	Desc_set_iterated_value(rsprintf(" %s ",sc[0]->grp[g].name));
-	for (s=0; s<nsc; s++)
-	    Desc_set_iterated_value(rsprintf(pct_fmt,
-					     F_ROUND(errs[s][g],prec)));
+	Desc_set_iterated_value(rsprintf(" %s ",sc[rs]->grp[g].name));
+	for (s=0; s<nsc; s++){
+	    int sg = find_grp_by_name(sc[s],sc[rs]->grp[g].name);
+	    if (sg < 0)
+		Desc_set_iterated_value("");
+	    else
+		Desc_set_iterated_value(rsprintf(pct_fmt,
+						 F_ROUND(errs[s][sg],prec)));
+	}
 	Desc_flush_iterated_row();
-    }
+      }
 
     /* set the overall summation rows */
     Desc_add_row_separation('=',BEFORE_ROW); 
@@ -1678,7 +1706,7 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     Desc_flush_iterated_row();
     Desc_add_row_separation('-',BEFORE_ROW);
 
-    for (l=0, g=sc[0]->num_grp; g<sc[0]->num_grp+5; l++, g++){
+    for (l=0, g=max_grp; g<max_grp+5; l++, g++){
 	if (l == 1 || l == 4)
 	    continue;
 	Desc_set_iterated_format(lfmt); 
@@ -1701,6 +1729,8 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     free_2dimarr(errs,nsc,double);
     free_2dimarr(wcount,nsc,int);
+    free_singarr(lfmt,char);
+    free_singarr(dfmt,char);
 }
 
 
-- 
2.43.0


From b693d1e1fead4a43d21f0fe4a71e0574842de893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 73/96] fix: labelled utterance reports overran fixed buffers,
 sized speakers by the first system and counted speakers without words in the
 means

---
 src/sclite/lur.c | 64 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 840c25e..0e370dc 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -19,24 +19,27 @@ typedef struct label_struct{
 }
 #endif
 
-static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc);
+static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc[]);
 static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab);
 static void create_report(LABEL *label, SCORES *sc, FILE *fp);
 static void create_N_lur_report(LABEL *label, SCORES *sc[], int nsc, char *tname, FILE *fp);
 static void free_LABEL_SCORES(LABEL *tlab, SCORES *sc, int nscor);
 
-static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc)
+static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc[])
 {
     LABEL *tlab;
 
-    int i,j,k;
+    int i,j,k,max_grp=0;
+    for (i=0; i<nscor; i++)
+	if (max_grp < sc[i]->num_grp)
+	    max_grp = sc[i]->num_grp;
     alloc_singarr(tlab,1,LABEL);
-    alloc_3dimarr(tlab->lsc,nscor,sc->aset.num_plab,
-		  sc->num_grp,LABEL_SCORES);
-    alloc_singZ(tlab->location,sc->aset.num_plab,int,(-1));
+    alloc_3dimarr(tlab->lsc,nscor,sc[0]->aset.num_plab,
+		  max_grp,LABEL_SCORES);
+    alloc_singZ(tlab->location,sc[0]->aset.num_plab,int,(-1));
     for (i=0; i<nscor; i++)
-	for (j=0; j<sc->aset.num_plab; j++)
-	    for (k=0; k<sc->num_grp; k++)
+	for (j=0; j<sc[0]->aset.num_plab; j++)
+	    for (k=0; k<max_grp; k++)
 		tlab->lsc[i][j][k].nref = tlab->lsc[i][j][k].nerr = 0;
     return(tlab);
 }
@@ -50,7 +53,7 @@ static void free_LABEL_SCORES(LABEL *tlab, SCORES *sc, int nscor)
 
 static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
     int i,p,ind,ms=0,sets,id;
-    char *cp,hs[30];
+    char *cp,*hs=(char *)0;
     PATH *path=(PATH *)0;
 
     for (i=0; i<sc->num_grp; i++){
@@ -70,7 +73,8 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 		    } else
 			ind=0;
 		    if (ind != 0){
-			strncpy(hs,cp,ind);   hs[ind] = '\0';
+			if (hs != (char *)0) free_singarr(hs,char);
+			hs = (char *)TEXT_strBdup((TEXT *)cp,ind);
 			/* printf("    set %s\n",hs);*/
 			/* Lookup the set in the label structure */
                         if ((id = find_PATHLABEL_id(sc,hs)) == -1){
@@ -102,6 +106,7 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 	}
     }
 
+    if (hs != (char *)0) free_singarr(hs,char);
     return;
 
   FAILED:
@@ -131,7 +136,7 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
 { 
     int j, k, npres, sumr, sume, i;
     int null_spkr_ref=0;
-    char titlefmt[50],fmt[50],categfmt[50];
+    char *titlefmt,*fmt,*categfmt;
     double *ref_words, *err_words;
     double **ref_sts, **err_sts;
     
@@ -139,6 +144,9 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
     alloc_singarr(err_words,sc->num_grp,double);
     alloc_2dimarr(ref_sts,sc->aset.num_plab,6,double);
     alloc_2dimarr(err_sts,sc->aset.num_plab,6,double);
+    alloc_singarr(titlefmt,3*sc->aset.num_plab+2,char);
+    alloc_singarr(fmt,3*sc->aset.num_plab+2,char);
+    alloc_singarr(categfmt,3*sc->aset.num_plab+2,char);
     
     /* create the format statements */
     strcpy(titlefmt,"c");
@@ -277,17 +285,28 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
     free_singarr(err_words,double);
     free_2dimarr(ref_sts,sc->aset.num_plab,double);
     free_2dimarr(err_sts,sc->aset.num_plab,double);
+    free_singarr(titlefmt,char);
+    free_singarr(fmt,char);
+    free_singarr(categfmt,char);
 }
 
 static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test_name, FILE *fp)
 { 
     int j, k, npres, sumr, sume, i, s;
-    char titlefmt[50],fmt[50],categfmt[50],statfmt[50];
+    char *titlefmt,*fmt,*categfmt,*statfmt;
+    int max_grp=0;
     double *ref_words, *err_words;
     double ***ref_sts, ***err_sts;
     
-    alloc_singarr(ref_words,sc[0]->num_grp,double);
-    alloc_singarr(err_words,sc[0]->num_grp,double);
+    for (s=0; s<nsc; s++)
+	if (max_grp < sc[s]->num_grp)
+	    max_grp = sc[s]->num_grp;
+    alloc_singarr(ref_words,max_grp,double);
+    alloc_singarr(err_words,max_grp,double);
+    alloc_singarr(titlefmt,3*sc[0]->aset.num_plab+2,char);
+    alloc_singarr(fmt,3*sc[0]->aset.num_plab+2,char);
+    alloc_singarr(categfmt,3*sc[0]->aset.num_plab+2,char);
+    alloc_singarr(statfmt,2*sc[0]->aset.num_plab+3,char);
     alloc_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,6,double);
     alloc_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,6,double);
     
@@ -363,15 +382,16 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     for (j=0; j<sc[0]->aset.num_plab; j++){
 	for (s=0; s<nsc; s++){
 	    npres = sumr = sume = 0;
-	    for (k=0; k<sc[s]->num_grp; k++)
-		if (labels->lsc[s][j][k].nref + labels->lsc[s][j][k].nerr != 0){
+	    for (k=0; k<sc[s]->num_grp; k++){
+		if (labels->lsc[s][j][k].nref > 0){
 		    ref_words[npres] = labels->lsc[s][j][k].nref;
 		    err_words[npres] = pct(labels->lsc[s][j][k].nerr,
 					   labels->lsc[s][j][k].nref);
-		    sumr += labels->lsc[s][j][k].nref;
-		    sume += labels->lsc[s][j][k].nerr;
 		    npres++;
 		}
+		sumr += labels->lsc[s][j][k].nref;
+		sume += labels->lsc[s][j][k].nerr;
+	    }
 	    /* calc and store statistics */
 	    calc_mean_var_std_dev_Zstat_double(ref_words,npres,&(ref_sts[s][j][1]),
 					       &(ref_sts[s][j][4]),&(ref_sts[s][j][2]),
@@ -435,6 +455,10 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     free_singarr(err_words,double);
     free_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,double);
     free_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,double);
+    free_singarr(titlefmt,char);
+    free_singarr(fmt,char);
+    free_singarr(categfmt,char);
+    free_singarr(statfmt,char);
 }
 
 
@@ -455,7 +479,7 @@ void print_lur(SCORES *sc, char *sys_root_name, int feedback)
 	if (feedback >= 1)
 	    printf("    Writing LUR scoring report to '%s'\n",fname);
 
-    labels = alloc_LABEL_SCORES(1, sc);
+    labels = alloc_LABEL_SCORES(1, &sc);
 
     compute_label_scores(sc, 0, labels);
 
@@ -484,7 +508,7 @@ void print_N_lur(SCORES *sc[], int nsc, char *out_root_name, char *test_name, in
 	if (feedback >= 1)
 	    printf("    Writing LUR scoring report to '%s'\n",fname);
 
-    labels = alloc_LABEL_SCORES(nsc, sc[0]);
+    labels = alloc_LABEL_SCORES(nsc, sc);
 
     for (i=0; i<nsc; i++)
 	compute_label_scores(sc[i], i, labels);
-- 
2.43.0


From e148e9aacac88842da4079470de15b6b73d78fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:50 +0000
Subject: [PATCH 74/96] fix: md-eval excluded and scored the wrong time around
 no-score zones (zone after the last turn, zone starting with its region, zone
 touching a boundary), and split words only at their last hyphen

---
 src/md-eval/md-eval.pl | 5802 ++++++++++++++++++++--------------------
 1 file changed, 2903 insertions(+), 2899 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index c5609eb..efd6768 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -1,2899 +1,2903 @@
-#!/usr/bin/perl -w
-use strict;
-
-my $version = "22";
-
-#################################
-# History:
-#
-# version 22:  * JGF: added an option '-m FILE' to hold a CSV speaker map file.
-#
-# version 21:  * JGF: added a flag '-n' to not remove the directory paths from the source
-#                files in the UEM file.
-#
-# version 20:  * change metadata discard rule:  rather than discard if the midpoint
-#                (or endpoint) of the metadata object lies in a no-eval zone, discard
-#                if there is ANY overlap whatsoever between the metadata object and
-#                a no-eval zone.  This holds for system output objects only if the
-#                system output metadata object is not mapped to a ref object.
-#              * optimize IP and SU mapping by giving a secondary bonus mapping score
-#                to candidate ref-sys MD map pairs if the end-words of both coincide.
-#
-# version 19:  * bug fix in subroutine speakers_match
-#              * bug fix in tag_ref_words_with_metadata_info
-#
-# version 18:  * cosmetic fix to error message in eval_condition
-#              * added conditional output options for word coverage performance
-#              * added secondary MD word coverage optimization to word alignment
-#              * further optimize word alignment by considering MD subtypes
-#              * further optimize MD alignment by considering MD subtypes
-#              * add a new SU discard rule:  discard if TEND in no-eval zone
-#              * enforce legal values for su_extent_limit
-#
-# version 17:  create_speaker_segs modified to accommodate the same speaker
-#              having multiple overlapping speaker segments.  (This is an
-#              error and pathological condition, but the system must either
-#              disallow (abort on) the condition, or perform properly under
-#              the pathological condition.  The second option is chosen.)
-#
-# version 16:  * If neither -w nor -W is specified, suppress warnings about
-#                ref SPEAKER records subsuming no lexemes.
-#              * Output the overall speaker diarization stats after the
-#                stats for the individual files
-#              * Do not alter the case of alphabetic characters in the filename
-#                field from the ref rttm file
-#              * Made the format of the overall speaker error line more similar to
-#                the corresponding line of output from SpkrSegEval, to facilitate
-#                use of existing "grep" commands in existing scripts.
-#
-# version 15:  * bug fix in create_speaker_segs to accommodate
-#                contiguous same-speaker segments
-#              * added conditional file/channel scoring to
-#                speaker diarization evaluation
-#
-# version 14:  bug fix in md_score
-#
-# version 13:  add DISCOURSE_RESPONSE as a FILLER subtype
-#
-# version 12:  make REF LEXEMES optional if they aren't required
-#
-# version 11:  change default for noscore MD regions
-#
-# version 10:  bug fix
-#
-# version 09:
-#    * avoid crash when metadata discard yields no metadata
-#    * make evaluated ref_wds sensitive to metadata type
-#    * defer discarding of system output metadata until after
-#      metadata mapping, then discard only unmapped events.
-#    * extend 1-speaker scoring inhibition to metadata
-#    * eliminate demand for SPKR-INFO subtype for speakers
-#    * correct ref count of IP and SU exact boundary words
-#    * add official RT-04F scores
-#    * add conditional analyses for file/chnl/spkr/gender
-#
-# version 08:
-#    * bug fixes speaker diarization scoring
-#      - count of EVAL_WORDS corrected
-#      - no-score extended to nearest SPEAKER boundary
-#
-# version 07:
-#    * warning issued when discarding metadata events
-#      that cover LEXEMEs in the evaluation region
-#
-# version 06:
-#    * eliminated unused speakers from speaker scoring
-#    * changed discard algorithm for unannotated SU's and
-#      complex EDIT's to discard sys SU's and EDIT's when
-#      their midpoints overlap (rather than ANY overlap).
-#    * fixed display_metadata_mapping
-#
-# version 05:
-#    * upgraded display_metadata_mapping
-#
-# version 04:
-#    * diagnostic metadata mapping output added
-#    * uem_from_rttm bug fix
-#
-# version 03:
-#    * adjusted times used for speaker diarization
-#    * changed usage of max_extend to agree with cookbook
-#
-# version 02: speaker diarization evaluation added
-#
-# version 01: a merged version of df-eval-v14 and su-eval-v16
-#
-#################################
-
-#global data
-my $epsilon = 1E-8;
-my $miss_name = "  MISS";
-my $fa_name = "  FALSE ALARM";
-my %rttm_datatypes = (SEGMENT        => {eval => 1, "<na>" => 1},
-		      NOSCORE        => {"<na>" => 1},
-		      NO_RT_METADATA => {"<na>" => 1},
-		      LEXEME         => {lex => 1, fp => 1, frag => 1, "un-lex" => 1,
-					 "for-lex" => 1, alpha => 1, acronym => 1,
-					 interjection => 1, propernoun => 1, other => 1},
-		      "NON-LEX"      => {laugh => 1, breath => 1, lipsmack => 1,
-					 cough => 1, sneeze => 1, other => 1},
-		      "NON-SPEECH"   => {noise => 1, music => 1, other => 1},
-		      FILLER         => {filled_pause => 1, discourse_marker => 1,
-					 discourse_response => 1, explicit_editing_term => 1,
-					 other => 1},
-		      EDIT           => {repetition => 1, restart => 1, revision => 1,
-					 simple => 1, complex => 1, other => 1},
-		      IP             => {edit => 1, filler => 1, "edit&filler" => 1,
-					 other => 1},
-		      SU             => {statement => 1, backchannel => 1, question => 1,
-					 incomplete => 1, unannotated => 1, other => 1},
-		      CB             => {coordinating => 1, clausal => 1, other => 1},
-		      "A/P"          => {"<na>" => 1},
-		      SPEAKER        => {"<na>" => 1},
-		      "SPKR-INFO"    => {adult_male => 1, adult_female => 1, child => 1, unknown => 1});
-my %md_subtypes = (FILLER => $rttm_datatypes{FILLER},
-		   EDIT   => $rttm_datatypes{EDIT},
-		   IP     => $rttm_datatypes{IP},
-		   SU     => $rttm_datatypes{SU});
-my %spkr_subtypes = (adult_male => 1, adult_female => 1, child => 1, unknown => 1);
-
-my $noeval_mds = {
-    DEFAULT => {
-	NOSCORE        => {"<na>" => 1},
-	NO_RT_METADATA => {"<na>" => 1},
-    },
-};
-my $noscore_mds = {
-    DEFAULT => {
-	NOSCORE        => {"<na>" => 1},
-	LEXEME         => {"un-lex" => 1},
-	SU             => {unannotated => 1},
-    },
-    MIN => {
-	NOSCORE        => {"<na>" => 1},
-	SU             => {unannotated => 1},
-    },
-    FRAG_UNLEX => {
-	NOSCORE        => {"<na>" => 1},
-	LEXEME         => {frag => 1, "un-lex" => 1},
-	SU             => {unannotated => 1},
-    },
-    FRAG => {
-	NOSCORE        => {"<na>" => 1},
-	LEXEME         => {frag => 1},
-	SU             => {unannotated => 1},
-    },
-    NONE => {
-    },
-};
-my $noeval_sds = {
-    DEFAULT => {
-	NOSCORE        => {"<na>" => 1},
-    },
-};
-my $noscore_sds = {
-    DEFAULT => {
-	NOSCORE        => {"<na>" => 1},
-	"NON-LEX"      => {laugh => 1, breath => 1, lipsmack => 1,
-			   cough => 1, sneeze => 1, other => 1},
-    },
-};
-
-my %speaker_map;
-
-my $default_extend = 0.50; #the maximum time (in seconds) to extend a no-score zone
-my $default_collar = 0.00; #the no-score collar (in +/- seconds) to attach to SPEAKER boundaries
-my $default_tgap = 1.00; #the max gap (in seconds) between matching ref/sys words
-my $default_Tgap = 1.00; #the max gap (in seconds) between matching ref/sys metadata events
-my $default_Wgap = 0.10; #the max gap (in words) between matching ref/sys metadata events
-my $default_su_time_limit = 0.50; #the max extent (in seconds) to match for SU's
-my $default_su_word_limit = 2.00; #the max extent (in words) to match for SU's
-my $default_word_delta_score = 10.0; #the max delta score for word-based DP alignment of ref/sys words
-my $default_time_delta_score = 1.00; #the max delta score for time-based DP alignment of ref/sys words
-
-my $usage = "\n\nUsage: $0 [-h] -r <ref_file> -s <src_file>\n\n".
-    "Description:  md-eval evaluates EARS metadata detection performance\n".
-    "      by comparing system metadata output data with reference data\n".
-    "INPUT:\n".
-    "  -R <ref-list>  A file containing a list of the reference metadata files\n".
-    "       being evaluated, in RTTM format.  If the word-mediated alignment\n".
-    "       option is used then this data must include reference STT data\n".
-    "       in addition to the metadata being evaluated.\n".
-    "  OR\n".
-    "  -r <ref-file>  A file containing reference metadata, in RTTM format\n\n".
-    "  -S <sys-list>  A file containing a list of the system output metadata\n".
-    "       files to be evaluated, in RTTM format.  If the word-mediated\n".
-    "       alignment option is used then this data must include system STT\n".
-    "       output data in addition to the metadata to be evaluated.\n".
-    "  OR\n".
-    "  -s <sys-file>  A file containin system output metadata, in RTTM format\n\n".
-    "  input options:\n".
-    "    -x to include complex edits in the analysis and scoring.\n".
-    "    -w for word-mediated alignment.\n".
-    "       * The default (time-mediated) alignment aligns ref and sys metadata\n".
-    "         according to the time overlap of the original ref and sys metadata\n".
-    "         time intervals.\n".
-    "       * Word-mediated alignment aligns ref and sys metadata according to\n".
-    "         the alignment of the words that are subsumed within the metadata\n".
-    "         time intervals.\n".
-    "    -W for word-optimized mapping.\n".
-    "       * The default (time-optimized) mapping maps ref and sys metadata\n".
-    "         so as to maximize the time overlap of mapped metadata events.\n".
-    "       * Word-optimized mapping maps ref and sys metadata so as to\n".
-    "         maximize the overlap in terms of the number of reference words\n".
-    "         that are subsumed within the overlapping time interval.\n".
-    "    -a <cfgs> Conditional analysis options for metadata detection performance:\n".
-    "         c for performance versus channel,\n".
-    "         f for performance versus file,\n".
-    "         g for performance versus gender, and\n".
-    "         s for performance versus speaker.\n".
-    "    -A <cf> Conditional analysis options for word coverage performance:\n".
-    "         c for performance versus channel,\n".
-    "         f for performance versus file,\n".
-    "    -t <time gap> The maximum time gap allowed between matching reference\n".
-    "       and system output words (in seconds).  Default value is $default_tgap.\n".
-    "    -T <time gap> The maximum time gap allowed between matching reference\n".
-    "       and system output metadata (in seconds).  Default value is $default_Tgap.\n".
-    "    -l <SU extent limit>  The maximum SU extent used to compute overlap\n".
-    "       between reference and system output SU's.  For time-optimized SU\n".
-    "       mapping this is the maximum time extent.  For word-optimized SU\n".
-    "       mapping (using the -W option) this is the maximum number of words.\n".
-    "       SU extent is limited to the last part of the SU. Default value is\n".
-    "       $default_su_time_limit for time-optimized mapping, $default_su_word_limit for word-optimized mapping.\n".
-    "    -u <uem-file> A file containing the evaluation partitions,\n".
-    "       in UEM format.\n".
-    "    -g <glm-file> A file containing word transformations used to\n".
-    "       standardize the representation of words.\n".
-    "    -o to include overlapping speech in MD evaluation.  With this option,\n".
-    "       separate recognition passes are made for each reference speaker.\n".
-    "    -c <collar> is the no-score zone around reference speaker segment\n".
-    "       boundaries.  (Speaker Diarization output is not evaluated within\n".
-    "       +/- collar seconds of a reference speaker segment boundary.)\n".
-    "       Default value is $default_collar seconds.\n".
-    "    -1 to limit scoring to those time regions in which only a single\n".
-    "       speaker is speaking\n".
-    "    -y <name> to select named no-eval conditions for metadata\n".
-    "    -Y <name> to select named no-score conditions for metadata\n".
-    "    -z <name> to select named no-eval conditions for speaker diarization\n".
-    "    -Z <name> to select named no-score conditions for speaker diarization\n".
-    "    -e to examine metadata mapping\n".
-    "    -d to print word alignment and error calculation details\n".
-    "    -D to print metadata event alignment and error calculation details\n".
-    "    -m to print speaker mapping details for speaker diarization\n".
-    "    -M FILE to print speaker mapping details for speaker diarization to a CSV file called 'FILE'\n".
-    "    -v to print the event sequence for each diarization source file\n".
-    "    -n to keep the directory names of the UEM source file entries\n".
-    "OUTPUT:\n".
-    "  Performance statistics are written to STDOUT.\n".
-    "\n";
-
-######
-# Intro
-my ($date, $time) = date_time_stamp();
-print "command line (run on $date at $time) Version: $version  ", $0, " ", join(" ", @ARGV), "\n";
-
-use vars qw ($opt_h $opt_w $opt_W $opt_d $opt_D $opt_R $opt_r $opt_S $opt_s $opt_l $opt_c $opt_x);
-use vars qw ($opt_t $opt_T $opt_g $opt_p $opt_P $opt_o $opt_a $opt_A $opt_u $opt_1 $opt_m $opt_v $opt_e);
-use vars qw ($opt_y $opt_Y $opt_z $opt_Z $opt_n $opt_M);
-$opt_y = $opt_Y = $opt_z = $opt_Z = "DEFAULT";
-use Getopt::Std;
-getopts ('nhdDwWox1mvec:R:r:S:s:t:T:g:p:P:a:A:u:l:y:Y:z:Z:M:');
-not defined $opt_h or die
-    "\n$usage";
-defined $opt_r or defined $opt_R or die
-    "\nCOMMAND LINE ERROR:  no reference data specified$usage";
-not defined $opt_r or not defined $opt_R or die
-    "\nCOMMAND LINE ERROR:  both reference file list and reference file specified$usage";
-defined $opt_s or defined $opt_S or die
-    "\nCOMMAND LINE ERROR:  no system output data specified$usage";
-not defined $opt_s or not defined $opt_S or die
-    "\nCOMMAND LINE ERROR:  both system output file list and system output file specified$usage";
-my $word_gap = defined $opt_t ? $opt_t : $default_tgap;
-my $md_gap = $opt_W ? $default_Wgap : (defined $opt_T ? $opt_T : $default_Tgap);
-my $su_extent_limit = defined $opt_l ? $opt_l :
-    ($opt_W ? $default_su_word_limit : $default_su_time_limit);
-$opt_W ? ($su_extent_limit >= 1 or die "\nCOMMAND LINE ERROR:  SU extent limit must be at least 1 for word-based MD alignment$usage") :
-         ($su_extent_limit > 0 or die "\nCOMMAND LINE ERROR:  SU extent limit must be positive for time-based MD alignment$usage");
-my $max_wd_delta_score = $opt_w ? $default_word_delta_score : $default_time_delta_score;
-$max_wd_delta_score = $opt_p if defined $opt_p;
-my $max_md_delta_score = $opt_W ? $default_word_delta_score : $default_time_delta_score;
-$max_md_delta_score = $opt_P if defined $opt_P;
-my $collar = defined($opt_c) ? $opt_c : $default_collar;
-$collar >= 0 or die
-    "\nCOMMAND LINE ERROR:  Speaker Diarization scoring collar ('$collar') must be non-negative$usage";
-my $max_extend = $default_extend;
-$opt_a = "" unless defined $opt_a;
-$opt_A = "" unless defined $opt_A;
-start_speaker_map_file($opt_M) if $opt_M;
-
-my $noeval_md = eval_condition ($opt_y, $noeval_mds, "no-eval", "metadata");
-my $noscore_md = eval_condition ($opt_Y, $noscore_mds, "no-score", "metadata");
-my $noeval_sd = eval_condition ($opt_z, $noeval_sds, "no-score", "speaker diarization");
-my $noscore_sd = eval_condition ($opt_Z, $noscore_sds, "no-score", "speaker diarization");
-
-my %type_order = (NOSCORE        => 0,
-		  NO_RT_METADATA => 1,
-		  SEGMENT        => 2,
-		  SPEAKER        => 3,
-		  SU             => 4,
-		  "A/P"          => 5,
-		  "NON-SPEECH"   => 6,
-		  EDIT           => 7,
-		  FILLER         => 8,
-		  IP             => 9,
-		  CB             => 10,
-		  "NON-LEX"      => 11,
-		  LEXEME         => 12);
-my %event_order = (END => 0,
-		   MID => 1,
-		   BEG => 2);
-my %source_order = (REF => 0,
-		    SYS => 1);
-
-{
-    my (%ref, %sys, $glm, $uem);
-
-    print_parameters ();
-    ($glm) = get_glm_data ($opt_g);
-    get_rttm_file (\%ref, $opt_r, $glm);
-    get_rttm_data (\%ref, $opt_R, $glm);
-    get_rttm_file (\%sys, $opt_s, $glm);
-    get_rttm_data (\%sys, $opt_S, $glm);
-
-    ($uem) = get_uem_data ($opt_u, $opt_n);
-    evaluate (\%ref, \%sys, $uem);
-}
-
-exit 0;
-
-#################################
-
-sub eval_condition {
-
-    my ($name, $conditions, $exclusion, $evaluation) = @_;
-
-    $name = "DEFAULT" unless $name;
-    return $conditions->{$name} if defined $conditions->{$name};
-    print STDERR "\nCOMMAND LINE ERROR:  unknown name ($name) of $exclusion conditions for $evaluation\n".
-	"    available $exclusion conditions for $evaluation are:\n\n";
-    foreach $name (sort keys %$conditions) {
-	printf STDERR "%-24stype    subtype\n", "    for \"$name\":";
-	foreach my $type (sort keys %{$conditions->{$name}}) {
-	    foreach my $subt (sort keys %{$conditions->{$name}{$type}}) {
-		printf STDERR "%28s    %s\n", $type, $subt;
-	    }
-	}
-	print "\n";
-    }
-    die "$usage";
-}    
-
-#################################
-
-sub print_parameters {
-
-    print $opt_w ? "\nWord-based metadata alignment, max gap between matching words = $word_gap sec\n" :
-	"\nTime-based metadata alignment\n";
-    print "\nMetadata evaluation parameters:\n";
-    $opt_W ? (print "    word-optimized metadata mapping\n".
-	            "        max gap between matching metadata events = $md_gap words\n".
-	            "        max extent to match for SU's = $su_extent_limit words\n") :
-	     (print "    time-optimized metadata mapping\n".
-		    "        max gap between matching metadata events = $md_gap sec\n".
-		    "        max extent to match for SU's = $su_extent_limit sec\n");
-    print "\nSpeaker Diarization evaluation parameters:\n".
-	  "    The max time to extend no-score zones for NON-LEX exclusions is $max_extend sec\n".
-	  "    The no-score collar at SPEAKER boundaries is $collar sec\n";
-    printf "\nExclusion zones for evaluation and scoring are:\n".
-	   "                             -----MetaData-----        -----SpkrData-----\n".
-	   "     exclusion set name:%12s%11s%15s%11s\n".
-	   "     token type/subtype      no-eval   no-score        no-eval   no-score\n",
-	       $opt_y, $opt_Y, $opt_z, $opt_Z;
-    print  "             (UEM)              X                         X\n";
-    foreach my $type (sort keys %rttm_datatypes) {
-	foreach my $subt (sort keys %{$rttm_datatypes{$type}}) {
-	    next unless ($noeval_md->{$type}{$subt} or
-			 $noscore_md->{$type}{$subt} or
-			 $noeval_sd->{$type}{$subt} or
-			 $noscore_sd->{$type}{$subt});
-	    printf "%15s/%-14s", $type, $subt;
-	    printf "%3s", $noeval_md->{$type}{$subt} ? "X" : "";
-	    printf "%10s", $noscore_md->{$type}{$subt} ? "X" : "";
-	    printf "%16s", $noeval_sd->{$type}{$subt} ? "X" : "";
-	    printf "%10s\n", $noscore_sd->{$type}{$subt} ? "X" : "";
-	}
-    }
-}
-
-#################################
-
-sub get_glm_data {
-
-    my ($file) = @_;
-    my ($record, @fields, $word, %words, %data);
-
-    return unless defined $file;
-    open DATA, $file or die
-	"\nCOMMAND LINE ERROR:  unable to open glm file '$file'$usage";
-    while ($record = <DATA>) {
-	next if $record =~ /^\s*$/;
-	next if $record =~ /^\s*(\[|\*|\%|\;)/;
-        @fields = split /\s+=>\s+/, lc $record;
-	shift @fields if $fields[0] eq "";
-        next unless @fields > 1;
-	$fields[0] =~ s/^\s+//;
-        $fields[1] =~ s/[^a-z-'_ \.].*//;
-        next if $fields[0] =~ /^\s*$/ or $fields[1] =~ /^\s*$/;
-        $data{$fields[0]} = [split /\s+/, $fields[1]];
-    }
-    close DATA;
-    return {%data};
-}
-
-#################################
-
-sub get_uem_data {
-
-    my ($file, $keepDirectoryPath) = @_;
-    my ($record, @fields, $seg, $chnl, %data);
-
-    return unless defined $file;
-    open DATA, $file or die
-	"\nCOMMAND LINE ERROR:  unable to open uem file '$file'$usage";
-    while ($record = <DATA>) {
-	next if $record =~ /^\s*[\#;]|^\s*$/;
-	@fields = split /\s+/, $record;
-	shift @fields if $fields[0] eq "";
-	@fields >= 4 or die
-	    ("\n\nFATAL ERROR:  insufficient number of fields in UEM record\n".
-	     "    record is: '$record'\n\n");
-	undef $seg;
-	$seg->{FILE} = shift @fields;
-	$seg->{CHNL} = lc shift @fields;
-	$seg->{TBEG} = lc shift @fields;
-	$seg->{TEND} = lc shift @fields;
-        $seg->{FILE} =~ s/.*\/// if (! $keepDirectoryPath);      #strip directory 
-        $seg->{FILE} =~ s/\.[^.]*//;   #strip file type
-        $seg->{TBEG} =~ s/[^0-9\.]//g; #strip non-numeric (commas)
-        $seg->{TEND} =~ s/[^0-9\.]//g; #strip non-numeric (commas)
-	push @{$data{$seg->{FILE}}{$seg->{CHNL}}}, $seg;
-    }
-    close DATA;
-
-#sort and check data
-    foreach $file (keys %data) {
-	foreach $chnl (keys %{$data{$file}}) {
-	    @{$data{$file}{$chnl}} =
-		sort {$a->{TBEG} <=> $b->{TBEG}} @{$data{$file}{$chnl}};
-	    my $prev_seg;
-	    foreach $seg (@{$data{$file}{$chnl}}) {
-		$seg->{TEND} > $seg->{TBEG} or die
-		    "\n\nFATAL ERROR:  non-positive evaluation segment length in UEM data for file $file, channel $chnl\n\n";
-		not defined $prev_seg or $seg->{TBEG} >= $prev_seg->{TEND} or die
-		    ("\n\nFATAL ERROR:  UEM file has overlapping evaluation segments\n".
-		     "    file $file, channel $chnl:  ($prev_seg->{TBEG},$prev_seg->{TEND}),".
-		     " ($seg->{TBEG},$seg->{TEND})\n\n");
-		$prev_seg = $seg;
-	    }
-	}
-    }
-    return {%data};
-}
-
-#################################
-
-sub get_rttm_data {
-
-    my ($data, $list, $glm) = @_;
-
-    return unless defined $list;
-    open LIST, $list or die
-	"\nCOMMAND LINE ERROR:  unable to open file list '$list'$usage";
-    while (my $file = <LIST>) {
-	get_rttm_file ($data, $file, $glm);
-    }
-    close LIST;
-}    
-
-#################################
-
-sub get_rttm_file {
-
-    my ($data, $rttm_file, $glm) = @_;
-    my ($record, @fields, $data_type, $file, $chnl, $word, @words, $token);
-
-    return unless defined $rttm_file;
-    open DATA, $rttm_file or die
-	"\nCOMMAND LINE ERROR:  unable to open RTTM file '$rttm_file'$usage";
-    while ($record = <DATA>) {
-	next if $record =~ /^\s*[\#;]|^\s*$/;
-	@fields = split /\s+/, $record;
-	shift @fields if $fields[0] eq "";
-	@fields >= 9 or die
-	    ("\n\nFATAL ERROR:  insufficient number of fields in RTTM file '$rttm_file'\n".
-	     "    input RTTM record is: '$record'\n\n");
-	$data_type = uc shift @fields;
-	undef $token;
-	$token->{TYPE} = $data_type;
-	$token->{FILE} = $file = shift @fields;
-	$token->{CHNL} = $chnl = lc shift @fields;
-	$token->{TBEG} = lc shift @fields;
-	$token->{TBEG} =~ s/\*//;
-	$token->{TDUR} = lc shift @fields;
-	$token->{TDUR} =~ s/\*//;
-	$token->{TDUR} = 0 if $token->{TDUR} eq "<na>";
-	$token->{TDUR} >= 0 or die
-	    ("\n\nFATAL ERROR -- negative metadata duration in file $file,'\n".
-	     "    input RTTM record is: '$record'\n\n");
-	$token->{WORD} = lc shift @fields;
-	$token->{SUBT} = lc shift @fields;
-	$rttm_datatypes{$token->{TYPE}}{$token->{SUBT}} or die
-	    ("\n\nFATAL ERROR:  unknown RTTM data type/subtype ('$token->{TYPE}'/'$token->{SUBT}') in file $rttm_file\n".
-	     "    input RTTM record is: '$record'\n\n");
-	$token->{SPKR} = shift @fields;
-	$token->{CONF} = lc shift @fields;
-	$token->{CONF} = "-"       unless defined $token->{CONF};
-	$token->{SPKR} = "<na>" unless defined $token->{SPKR};
-	if ($data_type eq "SPKR-INFO") {
-	    not defined $data->{$file}{$chnl}{$data_type}{$token->{SPKR}} or die
-		("\n\nFATAL ERROR:  multiple $data_type records for speaker $token->{SPKR} in file $file\n".
-		 "    input RTTM record is: '$record'\n\n");
-	    defined $spkr_subtypes{$token->{SUBT}} or die
-		("\n\nFATAL ERROR:  unknown $data_type subtype ($token->{SUBT}) in file '$file'\n".
-		 "    input RTTM record is: '$record'\n\n");
-	    $data->{$file}{$chnl}{$data_type}{$token->{SPKR}}{GENDER} = $token->{SUBT};
-	}
-	else {
-	    $token->{TEND} = $token->{TBEG}+$token->{TDUR};
-	    $token->{TMID} = $token->{TBEG}+$token->{TDUR}/2;
-	}
-
-	if ($data_type eq "LEXEME") {
-	    $token->{WTYP} = ($token->{SUBT} =~ /^fp$/         ? "fp"      :
-			      ($token->{SUBT} =~ /^frag$/      ? "frag"    :
-			       ($token->{SUBT} =~ /^un-lex$/   ? "un-lex"  :
-				($token->{SUBT} =~ /^for-lex$/ ? "for-lex" : "lex"))));
-	    @words = standardize_word ($token, $glm);
-	    foreach $word (@words) {
-		push @{$data->{$file}{$chnl}{LEXEME}}, $word;
-		push @{$data->{$file}{$chnl}{RTTM}}, $word;
-	    }
-	}
-	elsif ($data_type eq "SPEAKER") {
-	    push @{$data->{$file}{$chnl}{SPEAKER}{$token->{SPKR}}}, $token;
-	    push @{$data->{$file}{$chnl}{RTTM}}, $token;
-	}
-	elsif ($md_subtypes{$token->{TYPE}}) {
-	    defined $md_subtypes{$token->{TYPE}}{$token->{SUBT}} or die
-		("\n\nFATAL ERROR:  unknown $data_type subtype ($token->{SUBT}) in file '$file'\n".
-		 "    input RTTM record is: '$record'\n\n");
-	    push @{$data->{$file}{$chnl}{$data_type}}, $token;
-	    push @{$data->{$file}{$chnl}{RTTM}}, $token;
-	}
-	elsif ($data_type ne "SPKR-INFO") {
-	    push @{$data->{$file}{$chnl}{RTTM}}, $token;
-	}
-    }
-    close DATA;
-
-#sort and check data
-    foreach $file (keys %$data) {
-	foreach $chnl (keys %{$data->{$file}}) {
-	    foreach $data_type (keys %{$data->{$file}{$chnl}}) {
-		next if $data_type eq "SPKR-INFO";
-		if ($data_type eq "SPEAKER") {
-		    foreach my $spkr (keys %{$data->{$file}{$chnl}{$data_type}}) {
-			my $gender = $data->{$file}{$chnl}{"SPKR-INFO"}{$spkr}{GENDER};
-			$gender = $data->{$file}{$chnl}{"SPKR-INFO"}{$spkr}{GENDER} = "unknown" if not $gender;
-			@{$data->{$file}{$chnl}{$data_type}{$spkr}} =
-			    sort {$a->{TMID}<=>$b->{TMID}} @{$data->{$file}{$chnl}{$data_type}{$spkr}};
-			my $prev_token;
-			foreach $token (@{$data->{$file}{$chnl}{$data_type}{$spkr}}) {
-			    $token->{SUBT} = $gender;
-			    next unless $prev_token;
-			    not $prev_token or $token->{TBEG} >= $prev_token->{TEND}-$epsilon or die
-				("\n\nFATAL ERROR:  RTTM file has overlapping $data_type tokens for speaker $spkr\n".
-				 "    in file $file, channel $chnl:  ($prev_token->{TBEG},$prev_token->{TEND}),".
-				 " ($token->{TBEG},$token->{TEND})\n\n");
-			    $prev_token = $token;
-			}
-		    }
-		}
-		else {
-		    @{$data->{$file}{$chnl}{$data_type}} =
-			sort {$a->{TMID} <=> $b->{TMID}} @{$data->{$file}{$chnl}{$data_type}};
-		}
-	    }
-	}
-    }
-}
-
-#################################
-
-sub evaluate {
-
-    my ($ref_data, $sys_data, $uem_data) = @_;
-    my ($uem, $uem_sd_eval, $uem_sd_score, $uem_md_eval, $uem_md_score);
-    my ($ref_wds, $sys_wds, $ref_mds, $sys_mds, $type, %scores, $ref_rttm, $sys_rttm);
-
-    foreach my $file (sort keys %$ref_data) {
-	foreach my $chnl (sort keys %{$ref_data->{$file}}) {
-	    $ref_rttm = $ref_data->{$file}{$chnl}{RTTM};
-	    $sys_rttm = $sys_data->{$file}{$chnl}{RTTM};
-	    $ref_wds = $ref_data->{$file}{$chnl}{LEXEME} ? $ref_data->{$file}{$chnl}{LEXEME} : [];
-	    $sys_wds = $sys_data->{$file}{$chnl}{LEXEME} ? $sys_data->{$file}{$chnl}{LEXEME} : [];
-	    $uem = $uem_data->{$file}{$chnl};
-	    $uem = uem_from_rttm ($ref_rttm) if not defined $uem;
-	    @$ref_wds > 0 or not $opt_w or die
-		"\n\nFATAL ERROR:  no reference words for file '$file' and channel '$chnl'\n\n";
-	    @$sys_wds > 0 or not $opt_w or die
-		"\n\nFATAL ERROR:  no system output words for file '$file' and channel '$chnl'\n".
-		    "              Words are required for word-mediated alignment\n\n";
-	    if ($ref_wds and ($opt_w or $opt_e)) {
-	        tag_words_with_metadata_attributes ($ref_rttm, $ref_wds);
-	        tag_words_with_metadata_attributes ($sys_rttm, $sys_wds);
-	        perform_word_alignment ($file, $chnl, $ref_wds, $sys_wds, $uem);
-	    }
-	    $uem_md_eval = add_exclusion_zones_to_uem ($noeval_md, $uem, $ref_rttm);
-	    $uem_md_score = add_exclusion_zones_to_uem ($noscore_md, $uem_md_eval, $ref_rttm);
-	    $uem_md_score = exclude_overlapping_speech_from_uem ($uem_md_score, $ref_rttm) if $opt_1;
- 	    tag_scoreable_words ($ref_wds, $uem_md_score);
-	    foreach $type (sort keys %md_subtypes) {
-		$ref_mds = $ref_data->{$file}{$chnl}{$type};
-		next unless defined $ref_mds;
-		@$ref_wds > 0 or die
-		    "\n\nFATAL ERROR:  no reference words for file '$file' and channel '$chnl'\n\n";
-		$sys_mds = $sys_data->{$file}{$chnl}{$type};
-		$sys_mds = $sys_data->{$file}{$chnl}{$type} = [] unless defined $sys_mds;
-		map_metadata_to_words ($sys_mds, $sys_wds, $ref_mds, $ref_wds);
-		discard_unevaluated_metadata ($uem_md_eval, $type, $ref_mds, $ref_wds, "REF");
-		next if @$ref_mds == 0;
-		align_data ($ref_mds, $sys_mds, "", \&md_score, $max_md_delta_score);
-		trace_best_path ($ref_mds, $sys_mds);
-		discard_metadata_subtype ("EDIT", "complex", $ref_mds, $sys_mds) if $type eq "EDIT" and $opt_x;
-		discard_metadata_subtype ("SU", "unannotated", $ref_mds, $sys_mds) if $type eq "SU";
-		discard_unevaluated_metadata ($uem_md_eval, $type, $sys_mds, $ref_wds, "SYS");
-		($scores{$type}{$file}{$chnl}) = score_metadata_path
-		    ($type, $file, $chnl, $ref_mds, $sys_mds, $ref_wds);
-	    }
-
-	    $ref_mds = $ref_data->{$file}{$chnl}{SPEAKER};
-	    if (defined $ref_mds) {
-		@$ref_wds > 0 or not $opt_W or die
-		    "\n\nFATAL ERROR:  no reference words for file '$file' and channel '$chnl'\n\n";
-		$uem_sd_eval = add_exclusion_zones_to_uem ($noeval_sd, $uem, $ref_rttm);
-		$sys_mds = $sys_data->{$file}{$chnl}{SPEAKER};
-		$sys_mds = $sys_data->{$file}{$chnl}{SPEAKER} = {} unless defined $sys_mds;
-		map_spkrdata_to_words ($sys_mds, $sys_wds, $ref_mds, $ref_wds);
-		($scores{SPEAKER}{$file}{$chnl}) = score_speaker_diarization
-		    ($file, $chnl, $ref_mds, $sys_mds, $ref_wds, $uem_sd_eval, $ref_rttm);
-	    }
-
-	    if ($opt_e) {
-		discard_unevaluated_metadata ($uem, "LEXEME", $ref_rttm);
-		discard_unevaluated_metadata ($uem, "LEXEME", $sys_rttm);
-		discard_unevaluated_metadata ($uem_md_eval, "", $ref_rttm);
-		discard_metadata_subtype ("EDIT", "complex", $ref_rttm, $sys_rttm) if $opt_x;
-		discard_metadata_subtype ("SU", "unannotated", $ref_rttm, $sys_rttm);
-		discard_unevaluated_metadata ($uem_md_eval, "", $sys_rttm);
-		display_metadata_mapping ($file, $chnl, $ref_rttm, $sys_rttm, $ref_wds);
-	    }
-	}
-    }
-
-    foreach $type (sort keys %md_subtypes) {
-	md_performance_analysis ($type, $scores{$type}, $md_subtypes{$type}, $ref_data)
-	    if $scores{$type};
-    }
-    sd_performance_analysis ($scores{SPEAKER}, \%spkr_subtypes)
-	if $scores{SPEAKER};
-}
-
-#################################
-
-sub perform_word_alignment {
-
-    my ($file, $chnl, $ref_wds, $sys_wds, $uem) = @_;
-
-    my @ref_wds = @$ref_wds;
-    my @sys_wds = @$sys_wds;
-    discard_unevaluated_words ($uem, \@ref_wds);
-    discard_unevaluated_words ($uem, \@sys_wds);
-    @ref_wds > 0 or die
-	"\n\nFATAL ERROR:  no reference words in UEM portion of file '$file' and channel '$chnl'\n\n";
-    @sys_wds > 0 or not $opt_w or die
-	"\n\nFATAL ERROR:  no system output words in UEM portion of file '$file' and channel '$chnl'\n".
-	    "              Words are required for word-mediated alignment\n\n";
-    return unless @sys_wds > 0;
-
-    if ($opt_o) {
-	foreach my $spkr (word_kinds ($ref_wds, "SPKR")) {
-	    align_data ($ref_wds, $sys_wds, $spkr, \&word_score, $max_wd_delta_score);
-	    trace_best_path ($ref_wds, $sys_wds, $spkr);
-	}
-	decide_who_spoke_the_words ($ref_wds, $sys_wds);
-    }
-    else {
-	align_data ($ref_wds, $sys_wds, "", \&word_score, $max_wd_delta_score);
-	trace_best_path ($ref_wds, $sys_wds);
-    }
-
-#map system output word times to ref words
-    foreach my $wd (@$sys_wds) {
-	$wd->{RTBEG} = adjust_sys_time_to_ref ($wd->{TBEG}, $sys_wds);
-	$wd->{RTEND} = adjust_sys_time_to_ref ($wd->{TEND}, $sys_wds);
-	$wd->{RTDUR} = $wd->{RTEND} - $wd->{RTBEG};
-	$wd->{RTMID} = $wd->{RTBEG} + $wd->{RTDUR}/2;
-    }
-    score_word_path ($file, $chnl, $ref_wds, $sys_wds) if $opt_d;
-}
-
-################################
-
-sub time_in_eval_partition {
-
-    my ($time, $uem_eval) = @_;
-
-    return 1 unless defined $uem_eval; #not using UEM partition specification
-    foreach my $partition (@$uem_eval) {
-	return 1 if event_covers_time ($partition, $time);
-    }
-    return 0;
-}
-
-#################################
-
-sub discard_unevaluated_words {
-
-    my ($uem, $wds) = @_;
-
-    for (my $index=0; $index<@$wds; $index++) {
-	splice (@$wds, $index--, 1)
-	    if ($wds->[$index]{TYPE} eq "LEXEME" and
-		not time_in_eval_partition ($wds->[$index]{TMID}, $uem));
-    }
-}
-
-#################################
-
-sub discard_unevaluated_metadata {
-
-    my ($uem_eval, $type, $mds, $ref_wds, $src) = @_;
-
-    for (my $index=0; $index<@$mds; $index++) {
-	my $md = $mds->[$index];
-	next if (($type and $md->{TYPE} ne $type) or
-		 (not $type and not $md_subtypes{$md->{TYPE}}) or
-		 $md->{MAPPTR} or
-		 md_in_uem ($md, $uem_eval));
-	warn_if_discarded_md_covers_scored_lexemes ($md, $ref_wds, $uem_eval, $src) if $ref_wds;
-	splice (@$mds, $index--, 1);
-    }
-}
-
-#################################
-
-sub warn_if_discarded_md_covers_scored_lexemes {
-
-    my ($md, $ref_wds, $uem, $source) = @_;
-    my ($wbeg, $wend, $index);
-    
-    ($wbeg, $wend) = md_word_indices ($md, $ref_wds);
-
-    for ($index=$wbeg; $index<=$wend; $index++) {
-	next unless ($ref_wds->[$index]{SCOREABLE} and
-		     time_in_eval_partition ($ref_wds->[$index]{TMID}, $uem));
-	warn "\nWARNING:  A $source metadata event is being deleted that covers evaluated reference LEXEMEs\n".
-	    "    (type=$md->{TYPE}, subtype=$md->{SUBT}, spkr=$md->{SPKR}, TBEG=$md->{TBEG}, TEND=$md->{TEND})\n";
-	last;
-    }	
-}
-
-#################################
-
-sub discard_metadata_subtype {
-
-    my ($type, $subtype, $ref_mds, $sys_mds) = @_;
-    my ($iref, $isys, $ref_md, $sys_md);
-
-#discard all sys $type events that map to a ref event with subtype = $subtype
-#or that are unmapped and have midpoints that lie within a ref event with subtype = $subtype
-    for ($iref=0; $iref<@$ref_mds; $iref++) {
-	$ref_md = $ref_mds->[$iref];
-	next unless ($ref_md->{TYPE} eq $type and
-		     $ref_md->{SUBT} eq $subtype);
-	for ($isys=0; $isys<@$sys_mds; $isys++) {
-	    $sys_md = $sys_mds->[$isys];
-	    splice (@$sys_mds, $isys--, 1)
-		if ($sys_md->{TYPE} eq $type and
-		    (($sys_md->{MAPPTR} and $sys_md->{MAPPTR}{SUBT} eq $subtype) or
-		     (not $sys_md->{MAPPTR} and event_covers_time ($ref_md, $sys_md->{RTMID}))));
-	}
-
-#discard all ref $type/$subtype events
-	splice (@$ref_mds, $iref--, 1);
-    }
-}
-
-#################################
-
-sub tag_scoreable_words {
-
-    my ($wds, $uem_eval) = @_;
-
-    foreach my $wd (@$wds) {
-	$wd->{SCOREABLE} = time_in_eval_partition ($wd->{TMID}, $uem_eval);
-    }
-}
-
-#################################
-
-sub tag_words_with_metadata_attributes {
-
-    my ($mds, $wds) = @_;
-    my ($md, $iwbeg, $iwend, $iw, $wd, $type);
-
-    foreach $md (@$mds) {
-	$type = $md->{TYPE};
-	next unless $type =~ /^(FILLER|EDIT|SU|IP)$/;
-	($iwbeg, $iwend) = md_word_indices ($md, $wds);
-	if ($type =~ /^(FILLER|EDIT)$/) {
-	    for ($iw=$iwbeg; $iw<=$iwend; $iw++) {
-		$wds->[$iw]{ATTRIBUTES}{$md->{TYPE}} = $md->{SUBT};
-	    }
-	}
-	elsif ($type =~ /^(SU|IP)$/) {
-	    $wds->[$iwend]{ATTRIBUTES}{$md->{TYPE}} = $md->{SUBT};
-	}
-    }
-    return;
-}
-
-#################################
-
-sub tag_ref_words_with_metadata_info {
-
-    my ($mds, $wds, $src) = @_;
-    my ($md, $iwbeg, $iwend, $iw, $type);
-
-    foreach $md (@$mds) {
-	$type = $md->{TYPE};
-	($iwbeg, $iwend) = $src eq "REF" ?
-	    ($md->{WBEG}, $md->{WEND}) : ($md->{RWBEG}, $md->{RWEND}) ;
-	if ($type =~ /^(FILLER|EDIT)$/) {
-	    for ($iw=max($iwbeg,0); $iw<=min($iwend,@$wds-1); $iw++) {
-		$wds->[$iw]{"$src-$type"}{$md->{SUBT}}{MAP}++;
-	    }
-	}
-	elsif ($type =~ /^(SU|IP)$/) {
-	    $iwend = min(max($iwend,0),@$wds-1);
-	    $wds->[$iwend]{"$src-$type"}{$md->{SUBT}}{defined $md->{MAPPTR} ? "MAP" : "NOT"}++;
-	}
-    }
-    return;
-}
-
-#################################
-
-sub md_performance_analysis {
-
-    my ($metadata_type, $counts, $subtypes, $ref_data) = @_;
-    my ($file, $chnl, $spkr, $word, $type, $type_counts, $key);
-    my (@files, @chnls, @spkrs, @types, %nevent, %nwerr);
-    my ($subtype, $sys_subtype, %nconf, %offsets);
-
-#compute marginal counts
-    @files = keys %$counts;
-    foreach $file (@files) {
-	@chnls = keys %{$counts->{$file}};
-	foreach $chnl (@chnls) {
-	    $type_counts = $counts->{$file}{$chnl};
-	    foreach $type ("REF", "DEL", "INS", "SUB") {
-	        next unless defined $type_counts->{WORDS}{$type};
-		$nwerr{ALL}{$type} += $type_counts->{WORDS}{$type};
-		$nwerr{"c=$chnl f=$file"}{$type} += $type_counts->{WORDS}{$type} if $opt_A =~ /c/i and $opt_A =~ /f/i;
-		$nwerr{"c=$chnl"}{$type} += $type_counts->{WORDS}{$type} if $opt_A =~ /c/i and not $opt_A =~ /f/i;
-		$nwerr{"f=$file"}{$type} += $type_counts->{WORDS}{$type} if $opt_A =~ /f/i and not $opt_A =~ /c/i;
-	    }
-	    foreach $type ("WBEG", "WEND") {
-		foreach $key (keys %{$type_counts->{WORD_OFFSET}{$type}}) {
-		    $offsets{ALL}{$type}{$key} += $type_counts->{WORD_OFFSET}{$type}{$key};
-		}
-	    }
-	    my $spkr_info = $ref_data->{$file}{$chnl}{"SPKR-INFO"};
-	    $spkr_info->{unknown}{GENDER} = "unknown" unless defined $spkr_info->{unknown};
-	    foreach $type (keys %$type_counts) {
-		next unless $type =~ /^(REF|DEL|INS|SUB|CONFUSION)$/;
-		@spkrs = keys %{$type_counts->{$type}};
-		foreach $spkr (@spkrs) {
-		    my $gndr = $spkr_info->{$spkr}{GENDER};
-		    foreach $subtype (keys %$subtypes) {
-			my $count = $type_counts->{$type}{$spkr}{$subtype};
-			next unless $count;
-			if ($type eq "CONFUSION") {
-			    foreach $sys_subtype (keys%$count) {
-				$nconf{ALL}{$subtype}{$sys_subtype} += $count->{$sys_subtype};
-				$nconf{ALL}{$subtype}{$sys_subtype} = 0 if not $nconf{ALL}{$subtype}{$sys_subtype};
-				$nconf{ALL}{$sys_subtype}{$subtype} = 0 if not $nconf{ALL}{$sys_subtype}{$subtype};
-			    }
-			    next;
-			}
-			$nconf{ALL}{$subtype}{"{Miss}"} += $count if $type eq "DEL";
-			$nconf{ALL}{"{FA}"}{$subtype} += $count if $type eq "INS";
-			$nconf{ALL}{$subtype}{"{Miss}"} = 0 unless defined $nconf{ALL}{$subtype}{"{Miss}"};
-			$nconf{ALL}{"{FA}"}{$subtype} = 0 unless defined $nconf{ALL}{"{FA}"}{$subtype};
-			$nevent{ALL}{$type} += $count;
-			$nevent{"c=$chnl f=$file"}{$type} += $count if $opt_a =~ /c/i and $opt_a =~ /f/i;
-			$nevent{"c=$chnl"}{$type} += $count if $opt_a =~ /c/i and not $opt_a =~ /f/i;
-			$nevent{"f=$file"}{$type} += $count if $opt_a =~ /f/i and not $opt_a =~ /c/i;
-			$nevent{"s=$spkr"}{$type} += $count if $opt_a =~ /s/i;
-			$nevent{"g=$gndr"}{$type} += $count if $opt_a =~ /g/i;
-		    }
-		}
-	    }
-	}
-    }
-    print_md_scores ($metadata_type, \%nevent, \%nconf, \%offsets, \%nwerr);
-}
-
-#################################
-
-sub print_offset_stats {
-
-    my ($counts) = @_;
-    my (@offsets, $count, $min, $max, $i);
-
-    @offsets = (keys %{$counts->{WBEG}}, keys %{$counts->{WEND}});
-    $min = min (-3, @offsets);
-    $max = max (3, @offsets);
-    print "  word offsets:  <-3  ";
-    for ($i=-3; $i<=3; $i++) {
-	printf "%5d", $i;
-    }
-    print "     >3\n";
-    print "           BEG:";
-    for ($count=0,$i=$min; $i<-3; $i++) {
-	$count += $counts->{WBEG}{$i} if defined $counts->{WBEG}{$i};
-    }	    
-    printf "%5d  ", $count if defined $count;
-    print "    -  ", unless defined $count;
-    for ($i=-3; $i<=3; $i++) {
-	$count = $counts->{WBEG}{$i};
-	printf "%5d", $count if defined $count;
-	print "    -", unless defined $count;
-    }
-    for ($count=0,$i=4; $i<=$max; $i++) {
-	$count += $counts->{WBEG}{$i} if defined $counts->{WBEG}{$i};
-    }	    
-    printf "%7d", $count if defined $count;
-    print "      -", unless defined $count;
-    
-    print "\n           END:";
-    for ($count=0,$i=$min; $i<-3; $i++) {
-	$count += $counts->{WEND}{$i} if defined $counts->{WEND}{$i};
-    }	    
-    printf "%5d  ", $count if defined $count;
-    print "    -  ", unless defined $count;
-    for ($i=-3; $i<=3; $i++) {
-	$count = $counts->{WEND}{$i};
-	printf "%5d", $count if defined $count;
-	print "    -", unless defined $count;
-    }
-    for ($count=0,$i=4; $i<=$max; $i++) {
-	$count += $counts->{WEND}{$i} if defined $counts->{WEND}{$i};
-    }	    
-    printf "%7d", $count if defined $count;
-    print "      -", unless defined $count;
-    print "\n";
-}
-
-#################################
-
-sub print_md_scores {
-
-    my ($metadata_type, $event_counts, $conf_counts, $offset_counts, $word_counts) = @_;
-    my ($type, $nerr, $norm, $name, $ref, $sys, $category, $counts);
-    my ($count, $min, $max, $i, @offsets);
-    my $head_format = "%36s   %5s %5s %5s   %6s %6s %6s   %6s %6s\n";
-    my $data_format = "%-28.28s   %5d   %5d %5d %5s   %6.2f %6.2f %6.2f   %6.2f %6.2f\n";
-    my @header = ("Nref", "Ndel", "Nins", "Nsub", "%Del", "%Ins", "%Sub", "%D+I", "%Tot");
-
-    $counts = $word_counts->{ALL};
-    $nerr = $counts->{DEL} + $counts->{INS};
-    $nerr += $counts->{SUB} if $metadata_type =~ /^(SU|FILLER)$/;
-    printf "\n*** Performance analysis for %ss ***  overall error SCORE = %.2f%s\n",
-        $metadata_type,	100*$nerr/max($counts->{REF},$epsilon), "%";
-
-#metadata word detection
-    print "\nSU (exact) end detection statistics" if $metadata_type eq "SU";
-    print "\nIP (exact) detection statistics" if $metadata_type eq "IP";
-    print "\n$metadata_type word coverage statistics" unless $metadata_type =~ /^(SU|IP)$/;
-    print " -- in terms of reference words\n";
-    printf $head_format, @header;
-    foreach $category (sort keys %$word_counts) {
-	printf $data_format, ($category ne "ALL" ? $category : " "x17 ."ALL",
-			      error_output ($word_counts->{$category}));
-    }
-
-#metadata event detection
-    print "\n$metadata_type detection statistics -- in terms of \# of $metadata_type"."s\n";
-    printf $head_format, @header;
-    foreach $category (sort keys %$event_counts) {
-	printf $data_format, ($category ne "ALL" ? $category : " "x17 ."ALL",
-			      error_output ($event_counts->{$category}));
-    }
-
-#metadata event classification
-    print "\n$metadata_type detection confusion matrix -- in terms of \# of $metadata_type"."s\n";
-    foreach $category (sort keys %$conf_counts) {
-	$counts = $conf_counts->{$category};
-	printf "%24.24s", "$category - ref\\sys";
-	foreach $name (sort keys %$counts, "{Miss}") {
-	    next if $name eq "{FA}";
-	    print "    " if $name eq "{Miss}";
-	    printf "%10.8s", $name;
-	}
-	print "\n";
-	foreach $ref (sort keys %$counts) {
-	    print "\n" if $ref eq "{FA}";
-	    printf "%24.24s", $ref;
-	    foreach $sys (sort keys %$counts, "{Miss}") {
-		next if $sys eq "{FA}" or ($ref eq "{FA}" and $sys eq "{Miss}");
-		print "    " if $sys eq "{Miss}";
-		printf "%8d  ", $counts->{$ref}{$sys} ? $counts->{$ref}{$sys} : 0;
-	    }
-	    print "\n";
-	}
-    }
-
-#offsets
-    foreach $category (sort keys %$offset_counts) {
-	print "\n$metadata_type word offset statistics for $category data\n";
-	print_offset_stats ($offset_counts->{$category});
-    }
-}
-
-#################################
-
-sub error_output {
-
-    my ($counts) = @_;
-    my (@output, $item, $nerr);
-
-    foreach $item ("REF", "DEL", "INS", "SUB") {
-	$counts->{$item} = 0 unless defined $counts->{$item};
-	push @output, $counts->{$item};
-	$nerr += $counts->{$item} unless $item eq "REF";
-    }
-
-    my $norm = 100/max($counts->{REF},$epsilon);
-    foreach my $item ("DEL", "INS", "SUB") {
-	push @output, min(999.99,$norm*$counts->{$item});
-    }
-    my $dpi = $counts->{"DEL"}+$counts->{"INS"};
-    my $tot = $dpi+$counts->{"SUB"};
-    push @output, min(999.99,$norm*$dpi), min(999.99,$norm*$tot);
-    return @output;
-}
-
-#################################
-
-sub word_kinds {
-
-    my ($words, $kind) = @_;
-    my ($word, %count);
-
-    foreach $word (@$words) {
-	$count{$word->{$kind}}++;
-    }
-    return sort keys %count;
-}
-
-#################################
-
-sub standardize_word {
-
-    my ($word, $glm) = @_;
-    my (@split_word, @words, $tbeg, $tdur, $part, $new_word);
-
-    $word->{WORD} = lc $word->{WORD}; #lower case
-
-    if (defined $glm->{$word->{WORD}}) { #split glm words
-	@split_word = @{$glm->{$word->{WORD}}};
-    }
-    elsif ($word->{WORD} =~ /^([^-]+|mm-hmm|uh-huh|um-hmm)$/) {
-	return $word;
-    }
-    elsif ($word->{WORD} =~ /.+-.+/) { #split hyphenated words
-	$word->{WORD} =~ s/(.+)-(.+)/$1 $2/g;
-	@split_word = split /\s+/, $word->{WORD};
-    }
-    else { #don't split word
-	return $word;
-    }
-
-#split word and prorate time equally to each part
-    $tbeg = $word->{TBEG};
-    $tdur = $word->{TDUR}/@split_word;
-    foreach $part (@split_word) {
-	$new_word = {FILE => $word->{FILE}, CHNL => $word->{CHNL}, TBEG => $tbeg,
-		     TDUR => $tdur, TEND => $tbeg+$tdur, TMID => $tbeg+$tdur/2,
-		     WORD => $part, CONF => $word->{CONF}, SPKR => $word->{SPKR},
-		     TYPE => $word->{TYPE}, SUBT => $word->{SUBT}, WTYP => $word->{WTYP}};
-	push @words, $new_word;
-	$tbeg += $tdur;
-    }
-    return @words;
-}
-
-#################################
-
-sub decide_who_spoke_the_words {
-
-    my ($ref_wds, $sys_wds) = @_;
-    my ($ref_index, $ref_word, $sys_index, $index, $word, $md_index, $md);
-    my ($sys_word, $spkr, $score, $best_spkr, $best_score, @speakers);
-
-#select the best ref word for each STT output word that has multiple reference word matches
-    for ($sys_index=0; $sys_index<@$sys_wds; $sys_index++) {
-	$sys_word = $sys_wds->[$sys_index];
-	next unless defined $sys_word->{SPKRS};
-	undef $best_score;
-	@speakers = sort keys %{$sys_word->{SPKRS}};
-	next unless @speakers > 1;
-	foreach $spkr (@speakers) {
-	    next unless defined $sys_word->{SPKRS}{$spkr};
-	    $ref_word = $sys_word->{SPKRS}{$spkr}{REFPTR};
-	    $score = $ref_word->{PATHS}{$sys_index}{SCORE};
-	    next if defined $best_score and $best_score > $score;
-	    $best_score = $score;
-	    $best_spkr = $spkr;
-	}
-	next unless defined $best_score;
-	foreach $spkr (@speakers) {
-	    next if $spkr eq $best_spkr;
-	    $sys_word->{SPKRS}{$spkr} = undef;
-	    $ref_word = $sys_word->{SPKRS}{$best_spkr}{REFPTR};
-	}
-    }
-}
-
-#################################
-
-sub event_covers_time {
-
-    my ($event, $time) = @_;
-
-    return ($time < $event->{TBEG} or
-	    $time > $event->{TEND}) ? 0 : 1;
-}
-
-#################################
-
-sub word_score {
-
-    my ($ref_word, $sys_word) = @_;
-    my ($tbeg, $tend, $rw, $sw, $score, $word);
-    my ($attribute, $attributes, $ref_attributes, $sys_attributes);
-
-#compute joint word coverage
-    $score = 0;
-    if (defined $ref_word and defined $sys_word) {
-	return undef unless overlap ($ref_word, $sys_word, $word_gap);
-	if (($ref_attributes = $ref_word->{ATTRIBUTES}) and
-	    ($sys_attributes = $sys_word->{ATTRIBUTES})) {
-	    foreach $attribute ("EDIT", "FILLER", "IP", "SU") {
-	        next unless (defined $ref_attributes->{$attribute} and
-			     defined $sys_attributes->{$attribute});
-		$score += ($ref_attributes->{$attribute} eq
-			   $sys_attributes->{$attribute}) ? 0.02 : 0.01;
-	    }
-	}
-	return $score if #both word type and word spelling match
-	    ((   $ref_word->{WORD} eq $sys_word->{WORD} and
-		 $ref_word->{WTYP} eq $sys_word->{WTYP})
-	     
-	     or ($ref_word->{WTYP} eq "lex" and 
-		 $sys_word->{WTYP} eq "frag" and
-		 ($sw = $sys_word->{WORD}, $sw =~ s/^-*|-*$//g, $sw) #make sure that $sw is non-null
-		 and ($ref_word->{WORD} =~ /$sw/))
-	     
-	     or ($ref_word->{WTYP} eq "frag" and 
-		 $sys_word->{WTYP} eq "lex" and
-		 ($rw = $ref_word->{WORD}, $rw =~ s/^-*|-*$//g, $rw) #make sure that $rw is non-null
-		 and ($sys_word->{WORD} =~ /$rw/))
-	     
-	     or ($ref_word->{WTYP} eq "fp" and 
-		 $sys_word->{WTYP} eq "fp")
-	     
-	     or ($ref_word->{WTYP} eq "frag" and 
-		 $sys_word->{WTYP} eq "frag"));
-	
-	return $score - 0.1*max(1,ref_count($ref_word)) if #word type match, except for lex's
-	    ((   $ref_word->{WTYP} eq $sys_word->{WTYP} and
-		 $ref_word->{WTYP} ne "lex"));
-	
-	return $score - max(1,ref_count($ref_word),ref_count($sys_word));
-    }
-    $word = defined $ref_word ? $ref_word : $sys_word;
-    return 0 unless defined $word;
-    $score = $word->{WTYP} eq "lex" ? -ref_count($word) : -0.2*max(1,ref_count($word));
-    $attributes = $word->{ATTRIBUTES};
-    if (defined $attributes) {
-	foreach $attribute ("EDIT", "FILLER", "IP", "SU") {
-	    $score += 0.005 if defined $word->{$attribute};
-	}
-    }
-    return $score;
-}
-
-#################################
-
-sub wd_err_count {
-
-    my ($ref_word, $sys_word) = @_;
-    
-    my $word_score = word_score($ref_word,$sys_word);
-    return (defined $word_score and $word_score > -0.5) ? 0 : 1;
-}
-
-#################################
-
-sub ref_count {
-
-    my ($word) = @_;
-
-    return 0 unless defined $word;
-    return 0 if $word->{WTYP} =~ /^(non-lex|misc)$/;
-
-#hyphenated words get a count of 2 (except for mm-hmm, uh-huh and hm-hmm)
-    my $WORD = $word->{WORD};
-    $WORD =~ s/^-*|-*$//g;
-    return $WORD =~ /^([^-]+|mm-hmm|uh-huh|um-hmm)$/ ? 1 : 2;
-}
-
-#################################
-
-sub overlap {
-
-    my ($ref, $sys, $tgap) = @_;
-    
-    return 0 unless $ref and $sys;
-    $tgap = 0 unless defined $tgap;
-    my $tovl = (min($ref->{TEND}, $sys->{TEND}) -
-		max($ref->{TBEG}, $sys->{TBEG})) + $tgap;
-    return $tovl > 0 ? $tovl/(1 + $tgap/max($ref->{TDUR},$epsilon)) : 0;
-}
-
-################################
-
-sub md_in_uem {
-
-    my ($md, $uem_eval) = @_;
-
-    return 1 unless defined $uem_eval; #not using UEM partition specification
-    foreach my $partition (@$uem_eval) {
-        return 1 if ($md->{TEND} <= $partition->{TEND}+$epsilon and
-		     $md->{TBEG} >= $partition->{TBEG}-$epsilon);
-    }
-    return 0;
-}
-
-#################################
-
-sub map_spkrdata_to_words {
-
-    my ($sys_mds, $sys_wds, $ref_mds, $ref_wds) = @_;
-    my ($spkr, $md, @ref_spkr_mds, @sys_spkr_mds);
-
-    foreach $spkr (keys %$ref_mds) {
-	foreach $md (@{$ref_mds->{$spkr}}) {
-	    push @ref_spkr_mds, $md;
-	}
-    }
-
-    foreach $spkr (keys %$sys_mds) {
-	foreach $md (@{$sys_mds->{$spkr}}) {
-	    push @sys_spkr_mds, $md;
-	}
-    }
-
-    map_metadata_to_words (\@sys_spkr_mds, $sys_wds, \@ref_spkr_mds, $ref_wds);
-}
-
-#################################
-
-sub map_metadata_to_words {
-
-    my ($sys_mds, $sys_wds, $ref_mds, $ref_wds) = @_;
-
-#map system output metadata times to ref words
-    foreach my $md (@$sys_mds) {
-	if ($opt_w) { #adjust times/words to agree with ref-sys word alignment
-	    $md->{RTBEG} = adjust_sys_time_to_ref ($md->{TBEG}, $sys_wds);
-	    $md->{RTEND} = adjust_sys_time_to_ref ($md->{TEND}, $sys_wds);
-	}
-	else { #map system output metadata event to reference data normally
-	    $md->{RTBEG} = $md->{TBEG};
-	    $md->{RTEND} = $md->{TEND};
-	}
-	$md->{RTDUR} = $md->{RTEND} - $md->{RTBEG};
-	$md->{RTMID} = $md->{RTBEG} + $md->{RTDUR}/2;
-	($md->{RWBEG}, $md->{RWEND}) = md_ref_word_indices ($md, $ref_wds);
-	$md->{RWDUR} = $md->{RWEND} - $md->{RWBEG} + 1;
-    }
-
-#map reference metadata times to ref words
-    foreach my $md (@$ref_mds) {
-	($md->{WBEG}, $md->{WEND}) = md_word_indices ($md, $ref_wds);
-	$md->{WDUR} = $md->{WEND} - $md->{WBEG} + 1;
-	next if ($md->{WDUR} > 0 or
-		 $md->{TYPE} =~ /^(IP|CB)$/);
-        next if (not $opt_W and not $opt_w and $md->{TYPE} eq "SPEAKER");
-	warn "\nWARNING:  reference metadata event subsumes no reference words\n"
-	    ."    file='$md->{FILE}', chnl='$md->{CHNL}', tbeg='$md->{TBEG}',"
-		." tend='$md->{TEND}', type='$md->{TYPE}', subtype='$md->{SUBT}'\n";
-    }
-
-#friendly (unused) check of system metadata times versus sys words
-    return unless $opt_w;
-    foreach my $md (@$sys_mds) {
-	(my $wbeg, my $wend) = md_word_indices ($md, $sys_wds);
-	next if ($wend - $wbeg >= 0 or
-		 $md->{TYPE} =~ /^(IP|CB)$/);
-	warn "\nWARNING:  system output metadata event subsumes no system output words\n"
-	    ."    file='$md->{FILE}', chnl='$md->{CHNL}', tbeg='$md->{TBEG}',"
-		." tend='$md->{TEND}', type='$md->{TYPE}', subtype='$md->{SUBT}'\n";
-    }
-}
-
-#################################
-
-sub adjust_sys_time_to_ref {
-
-    my ($ts, $sys_wds) = @_;
-    my ($ts1, $ts2, $tr, $tr1, $tr2, $ws1, $ws2, $ref_wd);
-
-#given a time in the system output, find the time in the reference
-#that harmonizes with the alignment of system output words
-
-#find the nearest right reference anchor point
-    $ws2 = 0;
-    $ws2++ while ($ws2 < @$sys_wds and
-		  ($sys_wds->[$ws2]{TEND} < $ts or
-		   not defined $sys_wds->[$ws2]{MAPPTR}));
-    if ($ws2 < @$sys_wds) {
-	$ref_wd = $sys_wds->[$ws2]{MAPPTR};
-	($ts2, $tr2) = $sys_wds->[$ws2]{TBEG} < $ts ?
-	    ($sys_wds->[$ws2]{TEND}, $ref_wd->{TEND}) :
-	    ($sys_wds->[$ws2]{TBEG}, $ref_wd->{TBEG});
-    }
-
-#find the nearest left reference anchor point
-    $ws1 = min($ws2, @$sys_wds-1);
-    $ws1-- while ($ws1 >= 0 and 
-		  ($sys_wds->[$ws1]{TBEG} > $ts or
-		   not defined $sys_wds->[$ws1]{MAPPTR}));
-    if ($ws1 >= 0) {
-	$ref_wd = $sys_wds->[$ws1]{MAPPTR};
-	($ts1, $tr1) = $sys_wds->[$ws1]{TEND} > $ts ? 
-	    ($sys_wds->[$ws1]{TBEG}, $ref_wd->{TBEG}) :
-	    ($sys_wds->[$ws1]{TEND}, $ref_wd->{TEND});
-    }
-
-#make adjustment
-    $tr = (($ws1 < 0 and $ws2 >= @$sys_wds) ? $ts               : #no adjustment possible
-	   ($ws1 < 0)                       ? $tr2 + ($ts-$ts2) : #extrapolate left without scale change
-	   ($ws2 >= @$sys_wds)              ? $tr1 + ($ts-$ts1) : #extrapolate right without scale change
-	   ($ts == $ts1)                    ? $tr1              : #no interpolation necessary
-	   $tr1 + ($ts-$ts1)*($tr2-$tr1)/($ts2-$ts1));            #normal interpolation
-    return $tr;
-}
-
-#################################
-
-sub md_word_indices {
-
-    my ($md, $wds) = @_;
-
-#find the word indices of the first and last words with midpoints inside the metadata event
-    my $i = 0;
-    $i++ while ($i<@$wds and ($wds->[$i]{TMID}) < $md->{TBEG});
-    my $j = max($i-1,0);
-    $j++ while ($j<@$wds and ($wds->[$j]{TMID}) <= $md->{TEND});
-    return ($i, --$j);
-}
-
-#################################
-
-sub md_ref_word_indices {
-
-    my ($md, $wds) = @_;
-
-#find the word indices of the first and last words with midpoints inside the metadata event
-    my $i = 0;
-    $i++ while ($i<@$wds and ($wds->[$i]{TMID}) < $md->{RTBEG});
-    my $j = max($i-1,0);
-    $j++ while ($j<@$wds and ($wds->[$j]{TMID}) <= $md->{RTEND});
-    return ($i, --$j);
-}
-
-#################################
-
-sub align_data {
-
-    my ($refs, $syss, $spkr, $scorer, $max_delta_score) = @_;
-    my ($ref, $sys, $prev_ref, $path, $ref_path);
-    my ($ref_index, $sys_index, $index, $pruning_threshold);
-    my ($score, $path_score, $best_score, %cum_insertion_score);
-
-#compute cumulative insertion score for sys output
-    $cum_insertion_score{-1} = 0;
-    for ($sys_index=0; $sys_index<@$syss; $sys_index++) {
-	$sys = $syss->[$sys_index];
-	$cum_insertion_score{$sys_index} = $cum_insertion_score{$sys_index-1};
-	$cum_insertion_score{$sys_index} += &$scorer (undef, $sys);
-    }
-
-#find the best path by incremental optimization through the ref transcription
-    $prev_ref->{PATHS}{-1}{SCORE} = 0;
-    for ($ref_index=0; $ref_index<@$refs; $ref_index++) {
-	$ref = $refs->[$ref_index];
-	next if $spkr and $ref->{SPKR} ne $spkr;
-
-#find best score and compute pruning threshold
-	$best_score = undef;
-	foreach $index (keys %{$prev_ref->{PATHS}}) {
-	    $path_score = $prev_ref->{PATHS}{$index}{SCORE} +
-		$cum_insertion_score{@$syss-1}-$cum_insertion_score{$index};
-	    $best_score = $path_score if not defined $best_score or $best_score < $path_score;
-	}
-	$pruning_threshold = $best_score - $max_delta_score;
-	
-#extend paths with scores above pruning threshold
-	foreach $index (keys %{$prev_ref->{PATHS}}) {
-	    $path_score = $prev_ref->{PATHS}{$index}{SCORE} +
-		$cum_insertion_score{@$syss-1}-$cum_insertion_score{$index};
-	    next unless $path_score > $pruning_threshold;
-	    $ref->{PATHS}{$index}{PATHPTR} = $index;
-	    $ref->{PATHS}{$index}{PREVREF} = $prev_ref;
-	    $ref->{PATHS}{$index}{SCORE} = $prev_ref->{PATHS}{$index}{SCORE} +
-		&$scorer ($ref, undef);
-	}
-
-#compare the current ref event to all sys events
-	for ($sys_index=0; $sys_index<@$syss; $sys_index++) {
-	    $sys = $syss->[$sys_index];
-	    $score = &$scorer ($ref, $sys);
-	    next unless defined $score;
-
-#update each path for this {ref, sys} match
-	    foreach $index (sort {$a<=>$b} keys %{$prev_ref->{PATHS}}) {
-		next unless $index < $sys_index;
-		$path_score = $score + $prev_ref->{PATHS}{$index}{SCORE} +
-		    $cum_insertion_score{$sys_index-1}-$cum_insertion_score{$index};
-		if (not defined $ref->{PATHS}{$sys_index}
-		    or $path_score > $ref->{PATHS}{$sys_index}{SCORE}) {
-		    $ref->{PATHS}{$sys_index}{SCORE} = $path_score;
-		    $ref->{PATHS}{$sys_index}{PREVREF} = $prev_ref;
-		    $ref->{PATHS}{$sys_index}{PATHPTR} = $index;
-		    $ref->{PATHS}{$sys_index}{SYSPTR} = $sys;
-		}
-	    }
-	}
-	$prev_ref=$ref;
-    }
-
-#add insertion score for remaining unmapped sys events
-    foreach $index (sort {$a<=>$b} keys %{$prev_ref->{PATHS}}) {
-	$prev_ref->{PATHS}{$index}{SCORE} +=
-	    $cum_insertion_score{@$syss-1}-$cum_insertion_score{$index} if $index < @$syss-1;
-    }
-}
-
-#################################
-
-sub md_score {
-
-    my ($ref_md, $sys_md) = @_;
-    my ($beg, $end, $overlap, $ref_beg, $sys_beg, $md_dur);
-    my $subtype_bonus = 1.1; #multiplicative bonus for matching subtypes
-    my $endword_bonus = 1.001; #multiplicative bonus for matching boundaries
-
-    return 0 unless defined $ref_md and defined $sys_md;
-
-    if ($opt_W) { #compute md mapping score as ref-sys overlap in (ref) words
-	$ref_beg = $ref_md->{WBEG};
-	$sys_beg = $sys_md->{RWBEG};
-	if ($ref_md->{TYPE} eq "SU") {
-	    $ref_beg = max($ref_beg, $ref_md->{WEND}-($su_extent_limit-1));
-	    $sys_beg = max($sys_beg, $sys_md->{RWEND}-($su_extent_limit-1));
-	}
-	$beg = max($ref_beg, $sys_beg);
-	$end = min($ref_md->{WEND}, $sys_md->{RWEND});
-	$overlap = $end - $beg + 1;
-	$md_dur = $ref_md->{WEND} - $ref_beg + 1;
-    }
-    else { #compute md mapping score as ref-sys overlap in time
-	$ref_beg = $ref_md->{TBEG};
-	$sys_beg = $sys_md->{RTBEG};
-	if ($ref_md->{TYPE} eq "SU") {
-	    $ref_beg = max($ref_beg, $ref_md->{TEND}-$su_extent_limit);
-	    $sys_beg = max($sys_beg, $sys_md->{RTEND}-$su_extent_limit);
-	}
-	$beg = max($ref_beg, $sys_beg);
-	$end = min($ref_md->{TEND}, $sys_md->{RTEND});
-	$overlap = $end - $beg;
-	$md_dur = $ref_md->{TEND} - $ref_beg;
-    }
-    $overlap += $epsilon if $ref_md->{TYPE} =~ /^(IP|CB)$/;
-    $overlap += $md_gap;
-    return undef if $overlap < 0;
-    $overlap *= $subtype_bonus if $ref_md->{SUBT} eq $sys_md->{SUBT};
-    $overlap *= $endword_bonus if $ref_md->{WEND} eq $sys_md->{RWEND};
-    return $overlap if $md_dur+$md_gap < max($md_dur,$epsilon);
-    return $overlap * max($md_dur,$epsilon)/($md_dur+$md_gap);
-}
-
-#################################
-
-sub trace_best_path {
-
-    my ($refs, $syss, $spkr) = @_;
-    my ($ref, $path, $pathptr, $best_score, $prev_ref, $ref_index, $index, $sys);
-
-#find the last word for the selected channel and speaker
-    return unless @$refs and @$syss;
-    $ref_index = @$refs-1;
-    $ref_index-- while (defined $spkr and $refs->[$ref_index]{SPKR} ne $spkr);
-    $spkr = "ALL" unless defined $spkr;
-
-#identify the best path for the selected ending word
-    $ref = $refs->[$ref_index];
-    undef $best_score;
-    foreach $index (sort {$a<=>$b} keys %{$ref->{PATHS}}) {
-	$path = $ref->{PATHS}{$index};
-	if (not defined $best_score or $path->{SCORE} > $best_score) {
-	    $best_score = $path->{SCORE};
-	    $pathptr = $path->{PATHPTR};
-	    $prev_ref = $path->{PREVREF};
-	    $sys = $path->{SYSPTR};
-	}
-    }
-    if (defined $sys) {
-	$sys->{SPKRS}{$spkr}{REFPTR} = $ref;
-	$sys->{MAPPTR} = $ref;
-	$ref->{MAPPTR} = $sys;
-    }
-
-#trace the path back 
-    while ($pathptr != -1) {
-	$ref = $prev_ref;
-	$path = $ref->{PATHS}{$pathptr};
-	$pathptr = $path->{PATHPTR};
-	$prev_ref = $path->{PREVREF};
-	next unless defined $path->{SYSPTR};
-	$sys = $path->{SYSPTR};
-	$sys->{SPKRS}{$spkr}{REFPTR} = $ref;
-	$sys->{MAPPTR} = $ref;
-	$ref->{MAPPTR} = $sys;
-    }
-}
-
-#################################
-
-sub delta_metadata_error_words {
-
-#accumulates the number of metadata error words difference
-#between ref beg/end point of metadata event and sys beg/end point of metadata event
-
-    my ($location, $ref_index, $sys_index, $ref_wds) = @_;
-
-    my $dw = 0;
-    my $index = min($ref_index,$sys_index);
-    my $istop = max($ref_index,$sys_index);
-    while ($index != $istop) {
-	$index++ if $location eq "END";
-	$dw++ if $index >= 0 and $index < @$ref_wds and $ref_wds->[$index]{SCOREABLE};
-	$index++ if $location eq "BEG";
-    }
-    return $sys_index > $ref_index ? $dw : 0-$dw;
-}
-
-#################################
-
-sub print_path_score {
-
-    my ($ref, $sys, $ref_count, $err_count, $err_type) = @_;
-
-#print header
-    unless (defined $ref or defined $sys) {
-	printf " ref del ins sub %16.16s %-7s%8s%8s %-12.12s", "REF:  token", "type",
-	    "tbeg", "tend", "speaker";
-	printf " %16.16s %-7s  %7s%8s %8s%8s %-12.12s\n", "SYS:  token", "type",
-	    "Rtbeg", "Rtend", "tbeg", "tend", "sys-speaker" if $opt_w;
-	printf " %16.16s %-7s%8s%8s %-12.12s\n", "SYS:  token", "type",
-	    "tbeg", "tend", "speaker" unless $opt_w;
-	return;
-    }
-
-#print ref
-    my %errors = (REF=>"-", DEL=>"-", INS=>"-", SUB=>"-");
-    $errors{REF} = $ref_count if defined $ref_count;
-    $errors{$err_type} = $err_count if defined $err_type;
-    printf "%4s%4s%4s%4s", $errors{REF}, $errors{DEL}, $errors{INS}, $errors{SUB};
-
-    if (defined $ref) {
-	printf " %16.16s %-7s%8.2f%8.2f %-12.12s", $ref->{TYPE} =~ /^(LEXEME|NON-LEX|NON-SPEECH)$/ ?
-	    ($ref->{WORD}, $ref->{WTYP}) : ($ref->{SUBT}, $ref->{TYPE}), $ref->{TBEG}, $ref->{TEND}, $ref->{SPKR};
-    }
-    else {
-	printf " %16.16s %-7s%8s%8s %-12.12s", "---", "---", "--- ", "--- ", "---";
-    }
-
-#print sys
-    if ($opt_w) {
-	if (defined $sys) {
-	    printf " %16.16s %-7s (%7.2f%8.2f)%8.2f%8.2f %-12.12s\n", $sys->{TYPE} =~ /^(LEXEME|NON-LEX|NON-SPEECH)$/ ?
-		($sys->{WORD}, $sys->{WTYP}) : ($sys->{SUBT}, $sys->{TYPE}), $sys->{RTBEG}, $sys->{RTEND}, $sys->{TBEG}, $sys->{TEND}, $sys->{SPKR};
-	}
-	else {
-	    printf " %16.16s %-7s (%7s%8s)%8s%8s %-12.12s\n", "---", "---", "--- ", "--- ", "--- ", "--- ", "---";
-	}
-    }
-    else {
-	if (defined $sys) {
-	    printf " %16.16s %-7s%8.2f%8.2f %-12.12s\n", $sys->{TYPE} =~ /^(LEXEME|NON-LEX|NON-SPEECH)$/ ?
-		($sys->{WORD}, $sys->{WTYP}) : ($sys->{SUBT}, $sys->{TYPE}), $sys->{TBEG}, $sys->{TEND}, $sys->{SPKR};
-	}
-	else {
-	    printf " %16.16s %-7s%8s%8s %-12.12s\n", "---", "---", "--- ", "--- ", "---";
-	}
-    }	
-}
-
-#################################
-
-sub score_metadata_path {
-
-    my ($type, $file, $chnl, $ref_mds, $sys_mds, $ref_wds) = @_;
-    my ($ref_md, @sys_mds, $sys_index, $sys_md, $md, $spkr, $iw);
-    my (%count, $ref_count, $err_count, $ref_wd, $dw);
-
-    print "\n$type alignment and scoring details for channel $chnl of file $file\n" if $opt_D;
-    print_path_score () if $opt_D;
-
-#tabulate boundary/depod errors
-    tag_ref_words_with_metadata_info ($ref_mds, $ref_wds, "REF");
-    tag_ref_words_with_metadata_info ($sys_mds, $ref_wds, "SYS");
-    for ($iw=0; $iw<@$ref_wds; $iw++) {
-	$ref_wd = $ref_wds->[$iw];
-	next unless $ref_wd->{SCOREABLE} or $type =~ /^(IP|SU)$/;
-	my $nref = my $nsys = my $nins = my $ncor = 0;
-	foreach my $subtype (keys %{$md_subtypes{$type}}) {
-	    my $nr = $ref_wd->{"REF-$type"}{$subtype}{MAP};
-	    my $nm = $ref_wd->{"REF-$type"}{$subtype}{NOT};
-	    my $ns = $ref_wd->{"SYS-$type"}{$subtype}{MAP};
-	    my $ni = $ref_wd->{"SYS-$type"}{$subtype}{NOT};
-	    $nref += $nr if $nr;
-	    $nref += $nm if $nm;
-	    $nsys += $ns if $ns;
-	    $nins += $ni if $ni;
-	    $ncor += min($nr,$ns) if $nr and $ns;
-	}
-	$count{WORDS}{REF} += $nref;
-	$count{WORDS}{DEL} += max($nref-$nsys,0);
-	$count{WORDS}{INS} += max($nsys-$nref,0) + ($nins ? $nins : 0);
-	$count{WORDS}{SUB} += min($nref,$nsys) - $ncor;
-    }
-
-#tabulate beg/end word offset errors
-    foreach $ref_md (@$ref_mds) {
-	next unless ($sys_md = $ref_md->{MAPPTR});
-	$dw = delta_metadata_error_words ("BEG", $ref_md->{WBEG}, $sys_md->{RWBEG}, $ref_wds);
-	$count{WORD_OFFSET}{WBEG}{$dw}++;
-	$dw = delta_metadata_error_words ("END", $ref_md->{WEND}, $sys_md->{RWEND}, $ref_wds);
-	$count{WORD_OFFSET}{WEND}{$dw}++;
-    }
-
-#tabulate detection errors
-    @sys_mds = @$sys_mds;
-    $sys_md = shift @sys_mds;
-    foreach $ref_md (@$ref_mds) {
-	$spkr = $ref_md->{SPKR};
-	$ref_count = md_err_count ($ref_md, undef);
-	$count{REF}{$spkr}{$ref_md->{SUBT}} += $ref_count if defined $ref_count;
-	if ($ref_md->{MAPPTR}) {
-	    while ($sys_md and
-		   $sys_md ne $ref_md->{MAPPTR}) {
-		printf "%sUNEXPECTED MAPPED SYS MD:  %16s %-7s%8.2f%8.2f %-16s\n",
-		    " "x44, $sys_md->{SUBT}, $sys_md->{TYPE}, $sys_md->{TBEG},
-		    $sys_md->{TEND}, $sys_md->{SPKR} if $sys_md->{MAPPTR};
-		$err_count = md_err_count (undef, $sys_md);
-		$count{INS}{ref_spkr_of_md($sys_md,$ref_wds)}{$sys_md->{SUBT}} += $err_count;
-		print_path_score (undef, $sys_md, 0, $err_count, "INS") if $opt_D;
-		$sys_md = shift @sys_mds;
-	    }
-	    if ($sys_md) {
-		$err_count = md_err_count ($ref_md, $sys_md);
-		$count{SUB}{$spkr}{$ref_md->{SUBT}} += $err_count;
-		$count{CONFUSION}{$spkr}{$ref_md->{SUBT}}{$sys_md->{SUBT}} += $ref_count;
-		print_path_score ($ref_md, $sys_md, $ref_count, $err_count, "SUB") if $opt_D;
-		$sys_md = shift @sys_mds;
-	    }
-	    else {
-		printf "%sSYS MD NOT FOUND FOR REF MD:   %16s %-7s%8.2f%8.2f %-16s\n",
-		    " "x40, $ref_md->{SUBT}, $ref_md->{TYPE}, $ref_md->{TBEG},
-		    $ref_md->{TEND}, $ref_md->{SPKR} if $ref_md->{MAPPTR};
-	    }
-	}
-	else {
-	    $err_count = md_err_count ($ref_md, undef);
-	    $count{DEL}{$spkr}{$ref_md->{SUBT}} += $err_count;
-	    print_path_score ($ref_md, undef, $ref_count, $err_count, "DEL") if $opt_D;
-	}
-    }
-    while ($sys_md) {
-	printf "%sUNEXPECTED MAPPED SYS MD:  %16s %-7s%8.2f%8.2f %-16s\n",
-	    " "x44, $sys_md->{SUBT}, $sys_md->{TYPE}, $sys_md->{TBEG},
-	    $sys_md->{TEND}, $sys_md->{SPKR} if $sys_md->{MAPPTR};
-	$err_count = md_err_count (undef, $sys_md);
-	$count{INS}{ref_spkr_of_md($sys_md,$ref_wds)}{$sys_md->{SUBT}} += $err_count;
-	print_path_score (undef, $sys_md, 0, $err_count, "INS") if $opt_D;
-	$sys_md = shift @sys_mds;
-    }
-    return {%count};
-}
-
-#################################
-
-sub md_err_count {
-
-    my ($ref_md, $sys_md) = @_;
-
-    return 1 if (not defined $sys_md         or not defined $ref_md         or
-		 not defined $sys_md->{TYPE} or not defined $ref_md->{TYPE} or
-		 not defined $sys_md->{SUBT} or not defined $ref_md->{SUBT} or
-		 $sys_md->{TYPE} ne $ref_md->{TYPE} or
-		 $sys_md->{SUBT} ne $ref_md->{SUBT});
-    return 0;
-}
-
-#################################
-
-sub ref_spkr_of_md {
-
-    my ($md, $ref_wds) = @_;
-    my $spkr;
-
-    for (my $index =min($md->{RWBEG},$md->{RWEND});
-	    $index<=max($md->{RWBEG},$md->{RWEND}); $index++) {
-	next unless $index >= 0 and $index < @$ref_wds;
-	$spkr = $ref_wds->[$index]{SPKR} unless $spkr;
-	return "unknown" unless $ref_wds->[$index]{SPKR} eq $spkr;
-    }
-    return defined $spkr ? $spkr : "unknown";
-}
-
-#################################
-
-sub score_word_path {
-
-    my ($file, $chnl, $ref_wds, $sys_wds) = @_;
-    my ($ref_wrd, @sys_wds, $sys_wrd);
-    my ($ref_count, $err_count);
-
-    print "\nWord alignment and scoring details for channel $chnl of file $file\n";
-    print_path_score ();
-
-#tabulate errors
-    @sys_wds = @$sys_wds;
-    $sys_wrd = shift @sys_wds;
-    foreach $ref_wrd (@$ref_wds) {
-	$ref_count = ref_count($ref_wrd);
-	if ($ref_wrd->{MAPPTR}) {
-	    while ($sys_wrd and
-		   $sys_wrd ne $ref_wrd->{MAPPTR}) {
-		printf "%71s%16s %-7s%s%8.2f%8.2f %-16s\n", "UNEXPECTED MAPPED SYS WORD:",
-		    $sys_wrd->{WORD}, $sys_wrd->{WTYP}, " "x18, $sys_wrd->{TBEG},
-		    $sys_wrd->{TDUR}, $sys_wrd->{SPKR} if $sys_wrd->{MAPPTR};
-		$err_count = wd_err_count(undef, $sys_wrd);
-		print_path_score (undef, $sys_wrd, 0, $err_count, "INS");
-		$sys_wrd = shift @sys_wds;
-	    }
-	    if ($sys_wrd) {
-		$err_count = wd_err_count($ref_wrd, $sys_wrd);
-		print_path_score ($ref_wrd, $sys_wrd, $ref_count, $err_count, "SUB");
-		$sys_wrd = shift @sys_wds;
-	    }
-	    else {
-		printf "%71s%16s %-7s%s%8.2f%8.2f %-16s\n", "SYS WRD NOT FOUND FOR REF WRD:",
-		    $ref_wrd->{WORD}, $ref_wrd->{WTYP}, " "x18, $ref_wrd->{TBEG},
-		    $ref_wrd->{TDUR}, $ref_wrd->{SPKR} if $ref_wrd->{MAPPTR};
-	    }
-	}
-	else {
-	    $err_count = wd_err_count($ref_wrd, undef);
-	    print_path_score ($ref_wrd, undef, $ref_count, $err_count, "DEL");
-	}
-    }
-    while ($sys_wrd) {
-	printf "%71s%16s %-7s%8.2f%8.2f %-16s\n", "UNEXPECTED MAPPED SYS WORD:",
-	    $sys_wrd->{WORD}, $sys_wrd->{WTYP}, $sys_wrd->{TBEG},
-	    $sys_wrd->{TDUR}, $sys_wrd->{SPKR} if $sys_wrd->{MAPPTR};
-	$err_count = wd_err_count(undef, $sys_wrd);
-	print_path_score (undef, $sys_wrd, 0, $err_count, "INS");
-	$sys_wrd = shift @sys_wds;
-    }
-}
-
-#################################
-
-sub date_time_stamp {
-
-    my ($sec, $min, $hour, $mday, $mon, $year, $wday, $yday, $isdst) = localtime();
-    my @months = qw(Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec);
-    my ($date, $time);
-
-    $time = sprintf "%2.2d:%2.2d:%2.2d", $hour, $min, $sec;
-    $date = sprintf "%4.4s %3.3s %s", 1900+$year, $months[$mon], $mday;
-    return ($date, $time);
-}
-
-#################################
-
-sub max {
-
-    my ($max, $next);
-
-    return unless defined ($max=pop);
-    while (defined ($next=pop)) {
-	$max = $next if $next > $max;
-    }
-    return $max;
-}
-
-#################################
-
-sub min {
-
-    my ($min, $next);
-
-    return unless defined ($min=pop);
-    while (defined ($next=pop)) {
-	$min = $next if $next < $min;
-    }
-    return $min;
-}
-
-#################################
-
-sub score_speaker_diarization {
-
-    my ($file, $chnl, $ref_spkr_data, $sys_spkr_data, $ref_wds, $uem_eval, $rttm_data) = @_;
-    my ($uem_score, $ref_eval, $sys_eval, $spkr_overlap, $spkr_map);
-    my ($eval_segs, $score_segs, %stats, @ref_wds, $wrd, $ref_spkr, $sys_spkr);
-    my ($nref, $nsys, $nmap, $spkr, $seg, $type, $spkr_info, $noscore_nl);
-
-    $stats{EVAL_WORDS} = $stats{SCORED_WORDS} =	$stats{MISSED_WORDS} = $stats{ERROR_WORDS} = $epsilon;
-    @ref_wds = @$ref_wds;
-    $wrd = shift @ref_wds;
-    foreach $seg (@$uem_eval) {
-	$stats{EVAL_TIME} += $seg->{TEND}-$seg->{TBEG};
-	$wrd = shift @ref_wds while ($wrd and $wrd->{TMID} < $seg->{TBEG});
-	while ($wrd and $wrd->{TMID} <= $seg->{TEND}) {
-	    $stats{EVAL_WORDS}++;
-	    $wrd = shift @ref_wds;
-	}
-    }
-
-    $eval_segs = create_speaker_segs ($uem_eval, $ref_spkr_data, $sys_spkr_data);
-    foreach $seg (@$eval_segs) {
-	foreach $ref_spkr (keys %{$seg->{REF}}) {
-	    $spkr_info->{REF}{$ref_spkr}{TIME} += $seg->{TDUR};
-	    $spkr_info->{REF}{$ref_spkr}{TYPE} = $ref_spkr_data->{$ref_spkr}[0]{SUBT};
-	}
-	foreach $sys_spkr (keys %{$seg->{SYS}}) {
-	    $spkr_info->{SYS}{$sys_spkr}{TIME} += $seg->{TDUR};
-	    $spkr_info->{SYS}{$sys_spkr}{TYPE} = $sys_spkr_data->{$sys_spkr}[0]{SUBT};
-	}
-	next unless keys %{$seg->{REF}} > 0;
-	$stats{EVAL_SPEECH} += $seg->{TDUR};
-	foreach $ref_spkr (keys %{$seg->{REF}}) {
-	    foreach $sys_spkr (keys %{$seg->{SYS}}) {
-		$spkr_overlap->{$ref_spkr}{$sys_spkr} += $seg->{TDUR};
-	    }
-	}
-    }
-    $speaker_map{$file}{$chnl} = $spkr_map = map_speakers ($spkr_overlap)
-	if defined $spkr_overlap;
-    print_speaker_map ($spkr_map, $spkr_overlap) if $opt_m;
-    update_speaker_map_file ($spkr_map, $spkr_overlap, $file, $chnl, $opt_M) if $opt_M;
-
-    $uem_score = $collar > 0 ? add_collars_to_uem ($uem_eval, $ref_spkr_data) : $uem_eval;
-    $uem_score = add_exclusion_zones_to_uem ($noscore_sd, $uem_score, $rttm_data);
-    $noscore_nl->{"NON-LEX"} = $noscore_sd->{"NON-LEX"};
-    $uem_score = add_exclusion_zones_to_uem ($noscore_nl, $uem_score, $rttm_data, $max_extend);
-    $uem_score = exclude_overlapping_speech_from_uem ($uem_score, $rttm_data) if $opt_1;
-    tag_scoreable_words ($ref_wds, $uem_score);
-    $score_segs = create_speaker_segs ($uem_score, $ref_spkr_data, $sys_spkr_data);
-    print_speaker_segs ($score_segs, $file, $chnl) if $opt_v;
-    ($stats{TYPE}{NSPK}) = speaker_mapping_scores ($spkr_map, $spkr_info);
-    score_speaker_segments (\%stats, $score_segs, $ref_wds, $spkr_map, $spkr_info);
-    return {%stats};
-}
-
-#################################
-
-sub speaker_mapping_scores {
-
-    my ($spkr_map, $spkr_info) = @_;
-    my ($ref_spkr, $ref_type, $sys_spkr, $sys_type, %imap, %stats);
-
-    foreach $ref_spkr (keys %{$spkr_info->{REF}}) {
-	next unless $spkr_info->{REF}{$ref_spkr}{TIME};
-	$ref_type = $spkr_info->{REF}{$ref_spkr}{TYPE};
-	$stats{REF}{$ref_type}++;
-	$sys_spkr = $spkr_map->{$ref_spkr};
-	$sys_type = defined $sys_spkr ? $spkr_info->{SYS}{$sys_spkr}{TYPE} : $miss_name;
-	$stats{JOINT}{$ref_type}{$sys_type}++;
-	$imap{$sys_spkr} = $ref_spkr if defined $sys_spkr;
-    }
-    foreach $sys_spkr (keys %{$spkr_info->{SYS}}) {
-	next unless $spkr_info->{SYS}{$sys_spkr}{TIME};
-	$sys_type = $spkr_info->{SYS}{$sys_spkr}{TYPE};
-	$stats{SYS}{$sys_type}++;
-	$stats{JOINT}{$fa_name}{$sys_type}++
-	    unless defined $imap{$sys_spkr};
-    }
-    return {%stats};
-}
-
-#################################
-
-sub score_speaker_segments {
-
-    my ($stats, $score_segs, $ref_wds, $spkr_map, $spkr_info) = @_;
-    my ($ref_spkr, $ref_type, $sys_spkr, $sys_type, %type_stats);
-    my (@ref_wds, $wrd, $seg, $seg_dur, $nref, $nsys);
-
-    @ref_wds = @$ref_wds;
-    $wrd = shift @ref_wds;
-    foreach $seg (@$score_segs) {
-	$seg_dur = $seg->{TDUR};
-	$stats->{SCORED_TIME} += $seg_dur;
-	$nref = keys %{$seg->{REF}};
-	$nsys = keys %{$seg->{SYS}};
-	$stats->{SCORED_SPEECH} += $nref ? $seg_dur : 0;
-	$stats->{MISSED_SPEECH} += ($nref and not $nsys) ? $seg_dur : 0;
-	$stats->{FALARM_SPEECH} += ($nsys and not $nref) ? $seg_dur : 0;
-	$stats->{SCORED_SPEAKER} += $seg_dur*$nref;
-	$stats->{MISSED_SPEAKER} += $seg_dur*max($nref-$nsys,0);
-	$stats->{FALARM_SPEAKER} += $seg_dur*max($nsys-$nref,0);
-
-	my $scored_wrds = my $missed_wrds = my $error_wrds = 0;
-	$wrd = shift @ref_wds while ($wrd and $wrd->{TMID} < $seg->{TBEG});
-	while ($wrd and $wrd->{TMID} <= $seg->{TEND}) {
-	    next unless $wrd->{SCOREABLE};
-	    $scored_wrds++;
-	    $missed_wrds++ if not $nsys;
-	    $error_wrds++ unless speakers_match ($seg->{REF}, $seg->{SYS}, $spkr_map);
-	    $wrd = shift @ref_wds;
-	}
-	$stats->{SCORED_WORDS} += $scored_wrds;
-	$stats->{MISSED_WORDS} += $missed_wrds;
-	$stats->{ERROR_WORDS} += $error_wrds;
-
-	my $nmap = 0, my %num_types;
-	foreach $ref_spkr (keys %{$seg->{REF}}) {
-	    $ref_type = $spkr_info->{REF}{$ref_spkr}{TYPE};
-	    $num_types{REF}{$ref_type}++;
-	    $sys_spkr = $spkr_map->{$ref_spkr};
-	    $nmap++ if defined $sys_spkr and defined $seg->{SYS}{$sys_spkr};
-	}
-	$stats->{SPEAKER_ERROR} += $seg_dur*(min($nref,$nsys) - $nmap);
-
-	foreach $sys_spkr (keys %{$seg->{SYS}}) {
-	    $sys_type = $spkr_info->{SYS}{$sys_spkr}{TYPE};
-	    $num_types{SYS}{$sys_type}++;
-	}
-	foreach $ref_type (keys %{$num_types{REF}}) {
-	    $nref = $num_types{REF}{$ref_type};
-	    $type_stats{REF}{$ref_type} += $nref*$seg_dur;
-	    foreach $sys_type (keys %{$num_types{SYS}}) {
-		$nsys = $num_types{SYS}{$sys_type};
-		$type_stats{JOINT}{$ref_type}{$sys_type} += min($nref,$nsys)*$seg_dur;
-	    }
-	    $type_stats{JOINT}{$ref_type}{$miss_name} += max($nref-$nsys,0)*$seg_dur;
-	}
-	foreach $sys_type (keys %{$num_types{SYS}}) {
-	    $nsys = $num_types{SYS}{$sys_type};
-	    $type_stats{SYS}{$sys_type} += $nsys*$seg_dur;
-	    $type_stats{JOINT}{$fa_name}{$sys_type} += max($nsys-$nref,0)*$seg_dur;
-	}
-    }
-    $stats->{TYPE}{TIME} = {%type_stats};
-}
-
-#################################
-
-sub speakers_match {
-
-    my ($ref_spkrs, $sys_spkrs, $spkr_map) = @_;
-
-    return 0 unless keys %$ref_spkrs == keys %$sys_spkrs;
-    foreach my $ref_spkr (keys %$ref_spkrs) {
-	return 0 unless (defined $spkr_map->{$ref_spkr} and
-			 defined $sys_spkrs->{$spkr_map->{$ref_spkr}});
-    }
-    return 1;
-}
-
-#################################
-
-sub add_collars_to_uem {
-
-    my ($uem_eval, $ref_data) = @_;
-    my (@events, $event, $uem, $uem_score, $spkr, $spkr_seg, $tbeg, $evaluate);
-
-    foreach $uem (@$uem_eval) {
-	push @events, {EVENT => "BEG", TIME => $uem->{TBEG}};
-	push @events, {EVENT => "END", TIME => $uem->{TEND}};
-    }
-#add no-score collars
-    foreach $spkr (keys %$ref_data) {
-	foreach $spkr_seg (@{$ref_data->{$spkr}}) {
-	    push @events, {EVENT => "END", TIME => $spkr_seg->{TBEG}-$collar};
-	    push @events, {EVENT => "BEG", TIME => $spkr_seg->{TBEG}+$collar};
-	    push @events, {EVENT => "END", TIME => $spkr_seg->{TEND}-$collar};
-	    push @events, {EVENT => "BEG", TIME => $spkr_seg->{TEND}+$collar};
-	}
-    }
-    @events = sort {($a->{TIME} < $b->{TIME} ? -1 :
-		     ($a->{TIME} > $b->{TIME} ? 1 :
-		      $a->{EVENT} eq "END"))} @events;
-    $evaluate = 0;
-    foreach $event (@events) {
-	if ($event->{EVENT} eq "BEG") {
-	    $evaluate++;
-	    $tbeg = $event->{TIME} if $evaluate == 1;
-	}
-	else {
-	    $evaluate--;
-	    push @$uem_score, {TBEG => $tbeg, TEND => $event->{TIME}}
-	        if $evaluate == 0 and $event->{TIME} > $tbeg;
-	}
-    }
-    return $uem_score;
-}
-
-#################################
-
-sub exclude_overlapping_speech_from_uem {
-
-    my ($uem_data, $rttm_data) = @_;
-    my ($token, @spkr_events, $event, $spkr_cnt, $tbeg_overlap, $uem, @events, $uem_ex);
-
-#overlapping speech computed from SPEAKER data
-    foreach $token (@$rttm_data) {
-	next unless ($token->{TYPE} eq "SPEAKER" and
-		     $token->{TDUR} > 0);
-	push @spkr_events, {EVENT => "BEG", TIME => $token->{TBEG}, SPKR => $token->{SPKR}};
-	push @spkr_events, {EVENT => "END", TIME => $token->{TEND}, SPKR => $token->{SPKR}};
-    }
-    @spkr_events = sort {($a->{TIME} < $b->{TIME} ? -1 :
-			  ($a->{TIME} > $b->{TIME} ? 1 :
-			   $a->{EVENT} eq "BEG"))} @spkr_events;
-
-#create noscore zones
-    foreach $event (@spkr_events) {
-	if ($event->{EVENT} eq "BEG") {
-	    next unless ++$spkr_cnt == 2;
-	    $tbeg_overlap = $event->{TIME};
-	}
-	else {
-	    next unless --$spkr_cnt == 1;
-	    push @events, {TYPE => "NSZ", EVENT => "BEG", TIME => $tbeg_overlap};
-	    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $event->{TIME}};
-	}
-    }
-	
-#merge noscore zones with UEM data
-    foreach $uem (@$uem_data) {
-	next unless $uem->{TEND}-$uem->{TBEG} > 0;
-	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
-	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
-    }
-    @events = sort {($a->{TIME} < $b->{TIME} ? -1 :
-		     ($a->{TIME} > $b->{TIME} ? 1 :
-		      $a->{EVENT} eq "BEG"))} @events;
-
-    my $tbeg = my $evl_cnt = my $nsz_cnt = my $evaluating = 0;
-    foreach $event (@events) {
-	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
-	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
-	if ($evaluating and
-	    ($evl_cnt == 0 or $nsz_cnt > 0) and
-	    $event->{TIME} > $tbeg) {
-	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}};
-	    $evaluating = 0;
-	}
-	elsif ($evl_cnt > 0 and $nsz_cnt == 0) {
-	    $tbeg = $event->{TIME};
-	    $evaluating = 1;
-	}
-    }
-	    
-    return $uem_ex;
-}
-
-#################################
-
-sub add_exclusion_zones_to_uem {
-
-    my ($excluded_tokens, $uem_score, $rttm_data, $max_extend) = @_;
-    my (@events, $event, $uem, $uem_ex, $spkr, $spkr_seg, $tbeg, $evaluating, $token);
-    my (@ns_events, $evl_cnt, $lex_cnt, $nsz_cnt, $tstart, $tstop);
-    my ($tbeg_lex, $tbeg_nsz, $tend_lex, $tend_nsz, $tseg);
-
-    return $uem_score unless defined $excluded_tokens and (keys %$excluded_tokens) > 0;
-
-#gather data needed to create noscore zones
-    foreach $token (@$rttm_data) {
-	if ($token->{TYPE} eq "LEXEME" and
-	    not defined $excluded_tokens->{LEXEME}{$token->{SUBT}} and
-	    $token->{TDUR} > 0) {
-	    push @ns_events, {TYPE => "LEX", EVENT => "BEG", TIME => $token->{TBEG}};
-	    push @ns_events, {TYPE => "LEX", EVENT => "END", TIME => $token->{TEND}};
-	}
-	elsif ($token->{TYPE} eq "SPEAKER" and
-	       $token->{TDUR} > 0) {
-	    push @ns_events, {TYPE => "SEG", EVENT => "BEG", TIME => $token->{TBEG}};
-	    push @ns_events, {TYPE => "SEG", EVENT => "END", TIME => $token->{TEND}};
-	}
-	elsif (defined $excluded_tokens->{$token->{TYPE}}{$token->{SUBT}} and
-	       $token->{TDUR} > 0) {
-	    push @ns_events, {TYPE => "NSZ", EVENT => "BEG", TIME => $token->{TBEG}};
-	    push @ns_events, {TYPE => "NSZ", EVENT => "END", TIME => $token->{TEND}};
-	}
-    }
-    @ns_events = sort {($a->{TIME} < $b->{TIME} ? -1 :
-			($a->{TIME} > $b->{TIME} ? 1 :
-			 $a->{EVENT} eq "BEG"))} @ns_events;
-
-#create noscore zones
-    $evaluating = 1;
-    $max_extend = $epsilon if not $max_extend or $max_extend < $epsilon;
-    $tseg = $tbeg_nsz = $tbeg_lex = $tend_nsz = $tend_lex = 0;
-    $lex_cnt = $nsz_cnt = 0;
-    foreach $event (@ns_events) {
-	if ($event->{TYPE} eq "LEX") {
-	    if ($event->{EVENT} eq "BEG") {
-		$tbeg_lex = $event->{TIME} if $lex_cnt++ == 0;
-	    }
-	    else {
-		$tend_lex = $event->{TIME} if $lex_cnt-- == 1;
-	    }
-	}
-	elsif ($event->{TYPE} eq "NSZ") {
-	    if ($event->{EVENT} eq "BEG") {
-		$tbeg_nsz = $event->{TIME} if $nsz_cnt++ == 0;
-	    }
-	    else {
-		$tend_nsz = $event->{TIME} if $nsz_cnt-- == 1;
-	    }
-	}
-	elsif ($event->{TYPE} eq "SEG") {
-	    $tseg = $event->{TIME};
-	}
-
-	if ($evaluating) {
-	    next if ($nsz_cnt == 0 or
-		     $event->{TYPE} ne "NSZ");
-	    $tstop = ($lex_cnt > 0 ? $event->{TIME} :
-		      max($tend_lex, $tseg, $event->{TIME}-$max_extend));
-	    push @events, {TYPE => "NSZ", EVENT => "BEG", TIME => $tstop};
-	    $evaluating = 0;
-	}
-	elsif ($nsz_cnt == 0 and
-	       ($lex_cnt > 0 or
-		$event->{TYPE} eq "SEG")) {
-	    $tstart = min($tend_nsz+$max_extend, $event->{TIME});
-	    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tstart};
-	    $evaluating = 1;
-	}
-	elsif ($nsz_cnt == 1 and
-	       $event->{TYPE} eq "NSZ" and
-	       $event->{EVENT} eq "BEG" and
-	       $event->{TIME} > $tend_nsz+2*$max_extend) {
-	    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tend_nsz+$max_extend};
-	    push @events, {TYPE => "NSZ", EVENT => "BEG", TIME => $event->{TIME}-$max_extend};
-	    $evaluating = 0;
-	}
-    }
-
-#merge noscore zones with UEM data
-    foreach $uem (@$uem_score) {
-	next unless $uem->{TEND}-$uem->{TBEG} > 0;
-	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
-	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
-    }
-    @events = sort {($a->{TIME} < $b->{TIME} ? -1 :
-		     ($a->{TIME} > $b->{TIME} ? 1 :
-		      $a->{EVENT} eq "BEG"))} @events;
-    $evl_cnt = $evaluating = 0;
-    foreach $event (@events) {
-	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
-	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
-	if ($evaluating and
-	    ($evl_cnt == 0 or $nsz_cnt > 0) and
-	    $event->{TIME} > $tbeg) {
-	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}};
-	    $evaluating = 0;
-	}
-	elsif ($evl_cnt > 0 and $nsz_cnt == 0) {
-	    $tbeg = $event->{TIME};
-	    $evaluating = 1;
-	}
-    }
-	    
-    return $uem_ex;
-}
-
-#################################
-
-sub uem_from_rttm {
-
-    my ($rttm_data) = @_;
-    my ($token, $tbeg, $tend);
-
-    ($tbeg, $tend) = (1E30, 0);
-    foreach $token (@$rttm_data) {
-	($tbeg, $tend) = (min($tbeg,$token->{TBEG}), max($tend,$token->{TEND})) if
-	    $token->{TYPE} =~ /^(SEGMENT|SPEAKER|SU|EDIT|FILLER|IP|CB|A\/P|LEXEME|NON-LEX)$/;
-    }
-
-    return [{TBEG => $tbeg, TEND => $tend}];
-}
-
-#################################
-
-sub create_speaker_segs {
-
-    my ($uem_score, $ref_data, $sys_data) = @_;
-    my ($spkr, $seg, @events, $event, $uem, $segments, $tbeg, $tend);
-    my ($evaluate, %ref_spkrs, %sys_spkrs, $spkrs);
-
-    foreach $uem (@$uem_score) {
-	next unless $uem->{TEND} > $uem->{TBEG}+$epsilon;
-	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
-	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
-    }
-    foreach $spkr (keys %$ref_data) {
-	foreach $seg (@{$ref_data->{$spkr}}) {
-	    next unless $seg->{TDUR} > 0;
-	    push @events, {TYPE => "REF", SPKR => $spkr, EVENT => "BEG", TIME => $seg->{TBEG}};
-	    push @events, {TYPE => "REF", SPKR => $spkr, EVENT => "END", TIME => $seg->{TEND}};
-	}
-    }
-    foreach $spkr (keys %$sys_data) {
-	foreach $seg (@{$sys_data->{$spkr}}) {
-	    next unless $seg->{TDUR} > 0;
-	    push @events, {TYPE => "SYS", SPKR => $spkr, EVENT => "BEG", TIME => $seg->{RTBEG}};
-	    push @events, {TYPE => "SYS", SPKR => $spkr, EVENT => "END", TIME => $seg->{RTEND}};
-	}
-    }
-    @events = sort {($a->{TIME} < $b->{TIME}-$epsilon  ? -1 :
-		     ($a->{TIME} > $b->{TIME}+$epsilon ?  1 :
-		      ($a->{EVENT} eq "END"        ? -1 : 1)))} @events;
-    $evaluate = 0;
-    foreach $event (@events) {
-	if ($evaluate and $tbeg<$event->{TIME}) {
-	    $tend = $event->{TIME};
-	    push @$segments, {REF => {%ref_spkrs},
-			      SYS => {%sys_spkrs},
-			      TBEG => $tbeg,
-			      TEND => $tend,
-			      TDUR => $tend-$tbeg};
-	    $tbeg = $tend;
-	}
-	if ($event->{TYPE} eq "UEM") {
-	    $evaluate = $event->{EVENT} eq "BEG";
-	    $tbeg = $event->{TIME} if $evaluate;
-	}
-	else {
-	    $spkrs = $event->{TYPE} eq "REF" ? \%ref_spkrs : \%sys_spkrs;
-	    ($event->{EVENT} eq "BEG") ? $spkrs->{$event->{SPKR}}++ : $spkrs->{$event->{SPKR}}--;
-	    $spkrs->{$event->{SPKR}} <= 1 or warn
-	        "WARNING:  speaker $event->{SPKR} speaking more than once at time $event->{TIME}\n";
-	    delete $spkrs->{$event->{SPKR}} unless $spkrs->{$event->{SPKR}};
-	}
-    }
-    return $segments;
-}
-
-#################################
-
-sub sd_performance_analysis {
-
-    my ($scores, $subtypes) = @_;
-    my ($file, $chnl, $class, $kind, $ref_type, $sys_type);
-    my ($xscores, %cum_scores, $count);
-
-#accumulate statistics
-    foreach $file (keys %$scores) {
-	foreach $chnl (keys %{$scores->{$file}}) {
-	    $xscores = $scores->{$file}{$chnl};
-	    foreach $ref_type (keys %$xscores) {
-		next if $ref_type eq "TYPE";
-		$count = $xscores->{$ref_type};
-		$cum_scores{ALL}{$ref_type} += $count;
-		$cum_scores{"c=$chnl f=$file"}{$ref_type} += $xscores->{$ref_type} if $opt_a =~ /c/i and $opt_a =~ /f/i;
-		$cum_scores{"c=$chnl"}{$ref_type} += $xscores->{$ref_type} if $opt_a =~ /c/i and not $opt_a =~ /f/i;
-		$cum_scores{"f=$file"}{$ref_type} += $xscores->{$ref_type} if $opt_a =~ /f/i and not $opt_a =~ /c/i;
-	    }
-	    $xscores = $xscores->{TYPE};
-	    foreach my $class ("TIME", "NSPK") {
-		foreach my $kind ("REF", "SYS") {
-		    foreach $ref_type (keys %{$xscores->{$class}{$kind}}) {
-			$count = $xscores->{$class}{$kind}{$ref_type};
-			$cum_scores{ALL}{TYPE}{$class}{$kind}{$ref_type} += $count;
-			$cum_scores{"c=$chnl f=$file"}{TYPE}{$class}{$kind}{$ref_type} += $count if $opt_a =~ /c/i and $opt_a =~ /f/i;
-			$cum_scores{"c=$chnl"}{TYPE}{$class}{$kind}{$ref_type} += $count if $opt_a =~ /c/i and not $opt_a =~ /f/i;
-			$cum_scores{"f=$file"}{TYPE}{$class}{$kind}{$ref_type} += $count if $opt_a =~ /f/i and not $opt_a =~ /c/i;
-		    }
-		}
-		foreach $ref_type (keys %{$xscores->{$class}{JOINT}}) {
-		    foreach $sys_type (keys %{$xscores->{$class}{JOINT}{$ref_type}}) {
-			$count = $xscores->{$class}{JOINT}{$ref_type}{$sys_type};
-			$cum_scores{ALL}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count;
-			$cum_scores{"c=$chnl f=$file"}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count if $opt_a =~ /c/i and $opt_a =~ /f/i;
-			$cum_scores{"c=$chnl"}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count if $opt_a =~ /c/i and not $opt_a =~ /f/i;
-			$cum_scores{"f=$file"}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count if $opt_a =~ /f/i and not $opt_a =~ /c/i;
-		    }
-		}
-	    }
-	}
-    }
-
-    foreach my $condition (sort keys %cum_scores) {
-	print_sd_scores ($condition, $cum_scores{$condition}) if $condition !~ /ALL/;
-    }
-    print_sd_scores ("ALL", $cum_scores{ALL});
-}
-
-#################################
-
-sub print_sd_scores {
-
-    my ($condition, $scores) = @_;
-
-    printf "\n*** Performance analysis for Speaker Diarization for $condition ***\n\n";
-
-    printf "    EVAL TIME =%10.2f secs\n", $scores->{EVAL_TIME};
-    printf "  EVAL SPEECH =%10.2f secs (%5.1f percent of evaluated time)\n", $scores->{EVAL_SPEECH},
-        100*$scores->{EVAL_SPEECH}/$scores->{EVAL_TIME};
-    printf "  SCORED TIME =%10.2f secs (%5.1f percent of evaluated time)\n",
-        $scores->{SCORED_TIME}, 100*$scores->{SCORED_TIME}/$scores->{EVAL_TIME};
-    printf "SCORED SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
-        $scores->{SCORED_SPEECH}, 100*$scores->{SCORED_SPEECH}/$scores->{SCORED_TIME};
-    printf "   EVAL WORDS =%7d        \n", $scores->{EVAL_WORDS};
-    printf " SCORED WORDS =%7d         (%5.1f percent of evaluated words)\n",
-        $scores->{SCORED_WORDS}, 100*$scores->{SCORED_WORDS}/$scores->{EVAL_WORDS};
-    print "---------------------------------------------\n";
-    printf "MISSED SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
-        $scores->{MISSED_SPEECH}, 100*$scores->{MISSED_SPEECH}/$scores->{SCORED_TIME};
-    printf "FALARM SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
-        $scores->{FALARM_SPEECH}, 100*$scores->{FALARM_SPEECH}/$scores->{SCORED_TIME};
-    printf " MISSED WORDS =%7d         (%5.1f percent of scored words)\n",
-        $scores->{MISSED_WORDS}, 100*$scores->{MISSED_WORDS}/$scores->{SCORED_WORDS};
-    print "---------------------------------------------\n";
-    printf "SCORED SPEAKER TIME =%10.2f secs (%5.1f percent of scored speech)\n",
-        $scores->{SCORED_SPEAKER}, 100*$scores->{SCORED_SPEAKER}/$scores->{SCORED_SPEECH};
-    printf "MISSED SPEAKER TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
-        $scores->{MISSED_SPEAKER}, 100*$scores->{MISSED_SPEAKER}/$scores->{SCORED_SPEAKER};
-    printf "FALARM SPEAKER TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
-        $scores->{FALARM_SPEAKER}, 100*$scores->{FALARM_SPEAKER}/$scores->{SCORED_SPEAKER};
-    printf " SPEAKER ERROR TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
-        $scores->{SPEAKER_ERROR}, 100*$scores->{SPEAKER_ERROR}/$scores->{SCORED_SPEAKER};
-    printf "SPEAKER ERROR WORDS =%7d         (%5.1f percent of scored speaker words)\n",
-        $scores->{ERROR_WORDS}, 100*$scores->{ERROR_WORDS}/$scores->{SCORED_WORDS};
-    print "---------------------------------------------\n";
-#    if ($condition eq "ALL") {
-#      printf " OVERALL SPEAKER DIARIZATION ERROR = %.2f percent of scored speaker time\n",
-#         100*($scores->{MISSED_SPEAKER} + $scores->{FALARM_SPEAKER} + $scores->{SPEAKER_ERROR})/
-#	    $scores->{SCORED_SPEAKER};
-#    } else {
-      printf " OVERALL SPEAKER DIARIZATION ERROR = %.2f percent of scored speaker time  %s\n",
-         100*($scores->{MISSED_SPEAKER} + $scores->{FALARM_SPEAKER} + $scores->{SPEAKER_ERROR})/
-    	    $scores->{SCORED_SPEAKER}, "`($condition)";
-#    }
-    print "---------------------------------------------\n";
-    printf " Speaker type confusion matrix -- speaker weighted\n";
-    summarize_speaker_type_performance ("NSPK", $scores->{TYPE}{NSPK});
-    print "---------------------------------------------\n";
-    printf " Speaker type confusion matrix -- time weighted\n";
-    summarize_speaker_type_performance ("TIME", $scores->{TYPE}{TIME});
-    print "---------------------------------------------\n";
-}
-
-#################################
-
-sub summarize_speaker_type_performance {
-
-    my ($class, $stats) = @_;
-    my ($ref_type, $sys_type, $sys_stat);
-
-    print "  REF\\SYS (count)      " if $class eq "NSPK";
-    print "  REF\\SYS (seconds)    " if $class eq "TIME";
-    foreach $sys_type ((sort keys %{$stats->{SYS}}), $miss_name) {
-	printf "%-20s", $sys_type;
-    }
-    print "\n";
-
-    my $ref_tot = 0;
-    foreach $ref_type (keys %{$stats->{REF}}) {
-	$ref_tot += $stats->{REF}{$ref_type};
-    }
-    
-    foreach $ref_type ((sort keys %{$stats->{REF}}), $fa_name) {
-	printf "%-16s", $ref_type;
-	foreach $sys_type ((sort keys %{$stats->{SYS}}), $miss_name) {
-	    next if $ref_type eq $fa_name and $sys_type eq $miss_name;
-	    $sys_stat = $stats->{JOINT}{$ref_type}{$sys_type};
-	    $sys_stat = 0 unless defined $sys_stat;
-	    printf "%11d /%6.1f",   $sys_stat, min(999.9,$ref_tot ? 100*$sys_stat/$ref_tot : 9E9) if $class eq "NSPK";
-	    printf "%11.2f /%6.1f", $sys_stat, min(999.9,$ref_tot ? 100*$sys_stat/$ref_tot : 9E9) if $class eq "TIME";
-	    print "%";
-	}
-	print "\n";
-    }
-}
-
-#################################
-
-sub map_speakers {
-
-    my ($spkr_overlap) = @_;
-
-#compute the costs
-    my $cost = {};
-    foreach my $ref_spkr (keys %$spkr_overlap) {
-	foreach my $sys_spkr (keys %{$spkr_overlap->{$ref_spkr}}) {
-	    $cost->{$ref_spkr}{$sys_spkr} = -$spkr_overlap->{$ref_spkr}{$sys_spkr};
-	}
-    }
-
-#find the mapping that maximizes the cumulative match time between ref and sys spkrs
-    my $map = weighted_bipartite_graph_match ($cost);
-    return $map;
-}
-
-#################################
-
-sub inverse_speaker_map {
-
-    my ($speaker_map) = @_;
-    my ($speaker, $inverse_speaker_map);
-
-    foreach $speaker (keys %$speaker_map) {
-	$inverse_speaker_map->{$speaker_map->{$speaker}} = $speaker;
-    }
-    return $inverse_speaker_map;
-}
-
-#################################
-
-sub print_speaker_map {
-
-    my ($spkr_map, $time_overlap) = @_;
-    my ($ref_spkr, $sys_spkr);
-
-    foreach $ref_spkr (sort keys %$time_overlap) {
-	$sys_spkr = $spkr_map->{$ref_spkr};
-	print "'$ref_spkr' => ", defined $sys_spkr ? "'$sys_spkr'\n" : "<nil>\n";
-	foreach $sys_spkr (sort keys %{$time_overlap->{$ref_spkr}}) {
-	    my $time = $time_overlap->{$ref_spkr}{$sys_spkr};
-	    printf "%9.2f secs matched to '$sys_spkr'\n", defined $time ? $time : 0;
-	}
-    }
-}
-
-#################################
-
-sub start_speaker_map_file {
-    my ($outFile) = @_;
-    open (FILE, ">$outFile") || die "Error: Unable to open speaker map CSV file '$outFile' for write";
-    print FILE "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n";
-    close FILE;
-}
-
-#################################
-
-sub update_speaker_map_file {
-
-    my ($spkr_map, $time_overlap, $file, $chnl, $outFile) = @_;
-
-    open (FILE, ">>$outFile") || die "Error: Failed to open speaker map CSV file '$outFile' for append";
-    foreach my $ref_spkr (sort keys %$time_overlap) {
-	foreach my $sys_spkr (sort keys %{$time_overlap->{$ref_spkr}}) {
-	    my $time = sprintf("%.4f",$time_overlap->{$ref_spkr}{$sys_spkr});
-	    print FILE "$file,$chnl,$ref_spkr,$sys_spkr";
-	    print FILE ",".((defined($spkr_map->{$ref_spkr}) && $sys_spkr eq $spkr_map->{$ref_spkr}) ? "mapped" : "notmapped");
-	    print FILE ",$time\n";
-	}
-    }
-    close FILE,
-}
-
-#################################
-
-sub print_speaker_segs {
-
-    my ($segs, $file, $chnl) = @_;
-    my ($seg, @segs, $spkr, $sep);
-
-    @segs = @$segs;
-    while ($seg = shift @segs) {
-	printf "beg/dur/end = %7.3f/%7.3f/%7.3f; REF = (", $seg->{TBEG}, $seg->{TDUR}, $seg->{TEND};
-	print "<none>" unless defined keys %{$seg->{REF}};
-	$sep = "";
-	foreach $spkr (sort keys %{$seg->{REF}}) {
-	    print "$sep$spkr";
-	    $sep = ", ";
-	}
-	print "); SYS = (";
-	$sep = "";
-	print "<none>" unless defined keys %{$seg->{SYS}};
-	foreach $spkr (sort keys %{$seg->{SYS}}) {
-	    print "$sep$spkr";
-	    $sep = ", ";
-	}
-	print "); file = $file; chnl = $chnl\n";
-    }
-}
-
-#################################
-
-sub sort_time {
-
-    my ($token, $key) = @_;
-
-    my $time = $token->{"R$key"};
-    $time = $token->{$key} if not defined $time;
-    return int(100*$time+0.5)/100
-}
-
-#################################
-
-sub display_metadata_mapping {
-
-    my ($file, $chnl, $ref_rttm, $sys_rttm, $ref_wds) = @_;
-    my ($type, $sys_token, @events, $event, %type_cnt);
-    my ($mapped, $beg_mapped, $end_mapped, $whole, $spkr_map, $sys_speaker_field);
-    my %ref_tag = (NOSCORE        => "XS", NO_RT_METADATA => "NM", SEGMENT        => "SG", SPEAKER        => "SP",
-		   SU             => "SU", "A/P"          => "AP", "NON-SPEECH"   => "NS", EDIT           => "ED",
-		   FILLER         => "FL", IP             => "IP", CB             => "CB", "NON-LEX"      => "NL",
-		   LEXEME         => "LX");
-    my %sys_tag = (SPEAKER        => "SP", SU             => "SU", EDIT           => "ED", FILLER         => "FL",
-		   IP             => "IP", LEXEME         => "LX");
-
-#create a vector of rttm events
-    foreach my $token (@$ref_rttm) {
-	next unless defined $ref_tag{$token->{TYPE}};
-	push @events, {EVENT => "BEG", TIME => sort_time ($token, "TBEG"), TYPE => $token->{TYPE}, SRC => "REF", TOKEN => $token};
-	push @events, {EVENT => "END", TIME => sort_time ($token, "TEND"), TYPE => $token->{TYPE}, SRC => "REF", TOKEN => $token}
-	    unless $token->{TYPE} =~ /^(IP|CB)$/;
-	$token->{COUNT} = ++$type_cnt{$token->{TYPE}};
-    }
-    foreach my $token (@$sys_rttm) {
-	next unless defined $sys_tag{$token->{TYPE}};
-	push @events, {EVENT => "BEG", TIME => sort_time ($token, "TBEG"), TYPE => $token->{TYPE}, SRC => "SYS", TOKEN => $token};
-	push @events, {EVENT => "END", TIME => sort_time ($token, "TEND"), TYPE => $token->{TYPE}, SRC => "SYS", TOKEN => $token}
-	    unless $token->{TYPE} =~ /^(IP|CB)$/;
-    }
-
-    @events = sort sort_events @events;
-
-    $spkr_map = inverse_speaker_map ($speaker_map{$file}{$chnl});
-
-    print "\nChronological display of sys data aligned with ref data for file '$file', channel '$chnl'\n";
-    print "----------------------- reference ----------------------- | mapped | --------------------- system output ---------------------\n";
-    print "    --type-- -subtyp- -----word/spkr-----  -tbeg-  -tend- | ref_ID |     --type-- -subtyp- -----word/spkr-----  -tbeg-  -tend-\n";
-
-    while (@events) {
-        my ($token, $ref, $ref_beg, $ref_end, $sys, $sys_beg, $sys_end);
-	while (@events and
-	       (not $token or
-		$token eq $events[0]->{TOKEN} or 
-		($events[0]->{TOKEN}{MAPPTR} and
-		 $token eq $events[0]->{TOKEN}{MAPPTR}))) { # collect events to display on the same line
-	    $event = shift @events;
-	    $token = $event->{TOKEN};
-	    $event->{SRC} eq "REF" ? ($ref = $token, ($event->{EVENT} eq "BEG" ? $ref_beg : $ref_end) = 1) :
-	                             ($sys = $token, ($event->{EVENT} eq "BEG" ? $sys_beg : $sys_end) = 1);
-	}
-	if ($ref) {
-	    printf "%-3.3s %-8.8s %-8.8s %-19.19s%8s%8s | %-6.6s |",
-	    (($ref->{TYPE} =~ /^(IP|CB)$/ or ($ref_beg and $ref_end)) ? "" : ($ref_beg ? "beg" : "end")),
-	    $ref->{TYPE}, $ref->{SUBT},
-	    $ref->{WORD} ne "<na>" ? uc $ref->{WORD} : $ref->{SPKR},
-	    $ref_beg ? (sprintf "%8.2f", $ref->{TBEG}) : "",
-	    $ref_end ? (sprintf "%8.2f", $ref->{TEND}) : "",
-	    $ref->{MAPPTR} ? (sprintf "%s%d", $ref_tag{$ref->{TYPE}}, $ref->{COUNT}) :
-		($md_subtypes{$ref->{TYPE}} ? "*Miss*" : "");
-	} elsif ($sys) {
-	    $ref = $sys->{MAPPTR};
-	    printf "%s%8s%8s | %-6.6s |", " "x41,
-	    $sys_beg ? (sprintf "%8.2f", defined $sys->{RTBEG} ? $sys->{RTBEG} : $sys->{TBEG}) : "",
-	    $sys_end ? (sprintf "%8.2f", defined $sys->{RTEND} ? $sys->{RTEND} : $sys->{TEND}) : "",
-	    $ref ? (sprintf "%s%d", $sys_tag{$ref->{TYPE}}, $ref->{COUNT}) :
-		($md_subtypes{$sys->{TYPE}} ? "**FA**" : "");
-	}
-	if ($sys) {
-	    $sys_speaker_field = $sys ? $sys->{SPKR} : "";
-	    $sys_speaker_field .= "=>$spkr_map->{$sys->{SPKR}}" if $spkr_map->{$sys->{SPKR}};
-	    printf "%3.3s %-8.8s %-8.8s %-19.19s%8s%8s",
-	    (($sys->{TYPE} =~ /^(IP|CB)$/ or ($sys_beg and $sys_end)) ? "" : ($sys_beg ? "beg" : "end")),
-	    $sys->{TYPE}, $sys->{SUBT},
-	    $sys->{WORD} ne "<na>" ? uc $sys->{WORD} : $sys_speaker_field,
-	    $sys_beg ? (sprintf "%8.2f", $sys->{TBEG}) : "",
-	    $sys_end ? (sprintf "%8.2f", $sys->{TEND}) : "";
-	    if ($md_subtypes{$sys->{TYPE}} and $ref = $sys->{MAPPTR}) {
-		my $dw = $sys_end ?
-		    ($ref->{WEND} <= $sys->{RWEND} ? 
-		     delta_metadata_error_words ("END", max($ref->{WEND}, $sys->{RWBEG}-1), $sys->{RWEND}, $ref_wds) :
-		     delta_metadata_error_words ("END", $ref->{WEND}, max($ref->{WBEG}-1, $sys->{RWEND}), $ref_wds)) :
-		    ($ref->{WBEG} <= $sys->{RWBEG} ? 
-		     delta_metadata_error_words ("BEG", $ref->{WBEG}, min(1+$ref->{WEND}, $sys->{RWBEG}), $ref_wds) :
-		     delta_metadata_error_words ("BEG", min($ref->{WBEG}, 1+$sys->{RWEND}), $sys->{RWBEG}, $ref_wds));
-		print " dw=$dw" if abs ($dw) > 0;
-	    }
-	}
-	print "\n";
-    }
-}
-
-#################################
-
-sub sort_events {
-
-    return ($a->{TIME} <=> $b->{TIME} or
-	    $event_order{$a->{EVENT}} <=> $event_order{$b->{EVENT}} or
-	    (($type_order{$a->{TYPE}} <=> $type_order{$b->{TYPE}})*($a->{EVENT} eq "END" ? -1 : 1)) or
-	    $source_order{$a->{SRC}} <=> $source_order{$b->{SRC}});
-}
-
-#################################
-
-sub weighted_bipartite_graph_match {
-    my ($score) = @_;
-    
-    my $required_precision = 1E-12;
-    my $INF = 1E30;
-    my (@row_mate, @col_mate, @row_dec, @col_inc);
-    my (@parent_row, @unchosen_row, @slack_row, @slack);
-    my ($k, $l, $row, $col, @col_min, $cost, %cost);
-    my $t = 0;
-    
-    unless (defined $score) {
-	warn "input to BGM is undefined\n";
-	return undef;
-    }
-    return {} if (keys %$score) == 0;
-    
-    my @rows = sort keys %{$score};
-    my $miss = "miss";
-    $miss .= "0" while exists $score->{$miss};
-    my (@cols, %cols);
-    my $min_score = $INF;
-    foreach $row (@rows) {
-	foreach $col (keys %{$score->{$row}}) {
-	    $min_score = min($min_score,$score->{$row}{$col});
-	    $cols{$col} = $col;
-	}
-    }
-    @cols = sort keys %cols;
-    my $fa = "fa";
-    $fa .= "0" while exists $cols{$fa};
-    my $reverse_search = @rows < @cols; # search is faster when ncols <= nrows
-    foreach $row (@rows) {
-	foreach $col (keys %{$score->{$row}}) {
-	    ($reverse_search ? $cost{$col}{$row} : $cost{$row}{$col})
-		= $score->{$row}{$col} - $min_score;
-	}
-    }
-    push @rows, $miss;
-    push @cols, $fa;
-    if ($reverse_search) {
-	my @xr = @rows;
-	@rows = @cols;
-	@cols = @xr;
-    }
-
-    my $nrows = @rows;
-    my $ncols = @cols;
-    my $nmax = max($nrows,$ncols);
-    my $no_match_cost = -$min_score*(1+$required_precision);
-
-    # subtract the column minimas
-    for ($l=0; $l<$nmax; $l++) {
-	$col_min[$l] = $no_match_cost;
-	next unless $l < $ncols;
-	$col = $cols[$l];
-	foreach $row (keys %cost) {
-	    next unless defined $cost{$row}{$col};
-	    my $val = $cost{$row}{$col};
-	    $col_min[$l] = $val if $val < $col_min[$l];
-	}
-    }
-    
-    # initial stage
-    for ($l=0; $l<$nmax; $l++) {
-	$col_inc[$l] = 0;
-	$slack[$l] = $INF;
-    }
-    
-  ROW:
-    for ($k=0; $k<$nmax; $k++) {
-	$row = $k < $nrows ? $rows[$k] : undef;
-	my $row_min = $no_match_cost;
-	for (my $l=0; $l<$ncols; $l++) {
-	    my $col = $cols[$l];
-	    my $val = ((defined $row and defined $cost{$row}{$col}) ? $cost{$row}{$col}: $no_match_cost) - $col_min[$l];
-	    $row_min = $val if $val < $row_min;
-	}
-	$row_dec[$k] = $row_min;
-	for ($l=0; $l<$nmax; $l++) {
-	    $col = $l < $ncols ? $cols[$l]: undef;
-	    $cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
-		     $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
-	    if ($cost==$row_min and not defined $row_mate[$l]) {
-		$col_mate[$k] = $l;
-		$row_mate[$l] = $k;
-                # matching row $k with column $l
-		next ROW;
-	    }
-	}
-	$col_mate[$k] = -1;
-	$unchosen_row[$t++] = $k;
-    }
-    
-    goto CHECK_RESULT if $t == 0;
-    
-    my $s;
-    my $unmatched = $t;
-    # start stages to get the rest of the matching
-    while (1) {
-	my $q = 0;
-	
-	while (1) {
-	    while ($q < $t) {
-		# explore node q of forest; if matching can be increased, update matching
-		$k = $unchosen_row[$q];
-		$row = $k < $nrows ? $rows[$k] : undef;
-		$s = $row_dec[$k];
-		for ($l=0; $l<$nmax; $l++) {
-		    if ($slack[$l]>0) {
-			$col = $l < $ncols ? $cols[$l]: undef;
-			$cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
-				 $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
-			my $del = $cost - $s + $col_inc[$l];
-			if ($del < $slack[$l]) {
-			    if ($del == 0) {
-				goto UPDATE_MATCHING unless defined $row_mate[$l];
-				$slack[$l] = 0;
-				$parent_row[$l] = $k;
-				$unchosen_row[$t++] = $row_mate[$l];
-			    }
-			    else {
-				$slack[$l] = $del;
-				$slack_row[$l] = $k;
-			    }
-			}
-		    }
-		}
-		
-		$q++;
-	    }
-	    
-	    # introduce a new zero into the matrix by modifying row_dec and col_inc
-	    # if the matching can be increased update matching
-	    $s = $INF;
-	    for ($l=0; $l<$nmax; $l++) {
-		if ($slack[$l] and ($slack[$l]<$s)) {
-		    $s = $slack[$l];
-		}
-	    }
-	    for ($q = 0; $q<$t; $q++) {
-		$row_dec[$unchosen_row[$q]] += $s;
-	    }
-	    
-	    for ($l=0; $l<$nmax; $l++) {
-		if ($slack[$l]) {
-		    $slack[$l] -= $s;
-		    if ($slack[$l]==0) {
-			# look at a new zero and update matching with col_inc uptodate if there's a breakthrough
-			$k = $slack_row[$l];
-			unless (defined $row_mate[$l]) {
-			    for (my $j=$l+1; $j<$nmax; $j++) {
-				if ($slack[$j]==0) {
-				    $col_inc[$j] += $s;
-				}
-			    }
-			    goto UPDATE_MATCHING;
-			}
-			else {
-			    $parent_row[$l] = $k;
-			    $unchosen_row[$t++] = $row_mate[$l];
-			}
-		    }
-		}
-		else {
-		    $col_inc[$l] += $s;
-		}
-	    }
-	}
-	
-      UPDATE_MATCHING:  # update the matching by pairing row k with column l
-	while (1) {
-	    my $j = $col_mate[$k];
-	    $col_mate[$k] = $l;
-	    $row_mate[$l] = $k;
-            # matching row $k with column $l
-	    last UPDATE_MATCHING if $j < 0;
-	    $k = $parent_row[$j];
-	    $l = $j;
-	}
-	
-	$unmatched--;
-	goto CHECK_RESULT if $unmatched == 0;
-	
-	$t = 0;  # get ready for another stage
-	for ($l=0; $l<$nmax; $l++) {
-	    $parent_row[$l] = -1;
-	    $slack[$l] = $INF;
-	}
-	for ($k=0; $k<$nmax; $k++) {
-	    $unchosen_row[$t++] = $k if $col_mate[$k] < 0;
-	}
-    }  # next stage
-    
-  CHECK_RESULT:  # rigorously check results before handing them back
-    for ($k=0; $k<$nmax; $k++) {
-	$row = $k < $nrows ? $rows[$k] : undef;
-	for ($l=0; $l<$nmax; $l++) {
-	    $col = $l < $ncols ? $cols[$l]: undef;
-	    $cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
-		     $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
-	    if ($cost < ($row_dec[$k] - $col_inc[$l])) {
-		next unless $cost < ($row_dec[$k] - $col_inc[$l]) - $required_precision*max(abs($row_dec[$k]),abs($col_inc[$l]));
-		warn "BGM: this cannot happen: cost{$row}{$col} ($cost) cannot be less than row_dec{$row} ($row_dec[$k]) - col_inc{$col} ($col_inc[$l])\n";
-		return undef;
-	    }
-	}
-    }
-    
-    for ($k=0; $k<$nmax; $k++) {
-	$row = $k < $nrows ? $rows[$k] : undef;
-	$l = $col_mate[$k];
-	$col = $l < $ncols ? $cols[$l]: undef;
-	$cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
-		 $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
-	if (($l<0) or ($cost != ($row_dec[$k] - $col_inc[$l]))) {
-	    next unless $l<0 or abs($cost - ($row_dec[$k] - $col_inc[$l])) > $required_precision*max(abs($row_dec[$k]),abs($col_inc[$l]));
-	    warn "BGM: every row should have a column mate: row $row doesn't, col: $col\n";
-	    return undef;
-	}
-    }
-    
-    my %map;
-    for ($l=0; $l<@row_mate; $l++) {
-	$k = $row_mate[$l];
-	$row = $k < $nrows ? $rows[$k] : undef;
-	$col = $l < $ncols ? $cols[$l]: undef;
-	next unless defined $row and defined $col and defined $cost{$row}{$col};
-	$reverse_search ? ($map{$col} = $row) : ($map{$row} = $col);
-    }
-    return {%map};
-}
+#!/usr/bin/perl -w
+use strict;
+
+my $version = "22";
+
+#################################
+# History:
+#
+# version 22:  * JGF: added an option '-m FILE' to hold a CSV speaker map file.
+#
+# version 21:  * JGF: added a flag '-n' to not remove the directory paths from the source
+#                files in the UEM file.
+#
+# version 20:  * change metadata discard rule:  rather than discard if the midpoint
+#                (or endpoint) of the metadata object lies in a no-eval zone, discard
+#                if there is ANY overlap whatsoever between the metadata object and
+#                a no-eval zone.  This holds for system output objects only if the
+#                system output metadata object is not mapped to a ref object.
+#              * optimize IP and SU mapping by giving a secondary bonus mapping score
+#                to candidate ref-sys MD map pairs if the end-words of both coincide.
+#
+# version 19:  * bug fix in subroutine speakers_match
+#              * bug fix in tag_ref_words_with_metadata_info
+#
+# version 18:  * cosmetic fix to error message in eval_condition
+#              * added conditional output options for word coverage performance
+#              * added secondary MD word coverage optimization to word alignment
+#              * further optimize word alignment by considering MD subtypes
+#              * further optimize MD alignment by considering MD subtypes
+#              * add a new SU discard rule:  discard if TEND in no-eval zone
+#              * enforce legal values for su_extent_limit
+#
+# version 17:  create_speaker_segs modified to accommodate the same speaker
+#              having multiple overlapping speaker segments.  (This is an
+#              error and pathological condition, but the system must either
+#              disallow (abort on) the condition, or perform properly under
+#              the pathological condition.  The second option is chosen.)
+#
+# version 16:  * If neither -w nor -W is specified, suppress warnings about
+#                ref SPEAKER records subsuming no lexemes.
+#              * Output the overall speaker diarization stats after the
+#                stats for the individual files
+#              * Do not alter the case of alphabetic characters in the filename
+#                field from the ref rttm file
+#              * Made the format of the overall speaker error line more similar to
+#                the corresponding line of output from SpkrSegEval, to facilitate
+#                use of existing "grep" commands in existing scripts.
+#
+# version 15:  * bug fix in create_speaker_segs to accommodate
+#                contiguous same-speaker segments
+#              * added conditional file/channel scoring to
+#                speaker diarization evaluation
+#
+# version 14:  bug fix in md_score
+#
+# version 13:  add DISCOURSE_RESPONSE as a FILLER subtype
+#
+# version 12:  make REF LEXEMES optional if they aren't required
+#
+# version 11:  change default for noscore MD regions
+#
+# version 10:  bug fix
+#
+# version 09:
+#    * avoid crash when metadata discard yields no metadata
+#    * make evaluated ref_wds sensitive to metadata type
+#    * defer discarding of system output metadata until after
+#      metadata mapping, then discard only unmapped events.
+#    * extend 1-speaker scoring inhibition to metadata
+#    * eliminate demand for SPKR-INFO subtype for speakers
+#    * correct ref count of IP and SU exact boundary words
+#    * add official RT-04F scores
+#    * add conditional analyses for file/chnl/spkr/gender
+#
+# version 08:
+#    * bug fixes speaker diarization scoring
+#      - count of EVAL_WORDS corrected
+#      - no-score extended to nearest SPEAKER boundary
+#
+# version 07:
+#    * warning issued when discarding metadata events
+#      that cover LEXEMEs in the evaluation region
+#
+# version 06:
+#    * eliminated unused speakers from speaker scoring
+#    * changed discard algorithm for unannotated SU's and
+#      complex EDIT's to discard sys SU's and EDIT's when
+#      their midpoints overlap (rather than ANY overlap).
+#    * fixed display_metadata_mapping
+#
+# version 05:
+#    * upgraded display_metadata_mapping
+#
+# version 04:
+#    * diagnostic metadata mapping output added
+#    * uem_from_rttm bug fix
+#
+# version 03:
+#    * adjusted times used for speaker diarization
+#    * changed usage of max_extend to agree with cookbook
+#
+# version 02: speaker diarization evaluation added
+#
+# version 01: a merged version of df-eval-v14 and su-eval-v16
+#
+#################################
+
+#global data
+my $epsilon = 1E-8;
+my $miss_name = "  MISS";
+my $fa_name = "  FALSE ALARM";
+my %rttm_datatypes = (SEGMENT        => {eval => 1, "<na>" => 1},
+		      NOSCORE        => {"<na>" => 1},
+		      NO_RT_METADATA => {"<na>" => 1},
+		      LEXEME         => {lex => 1, fp => 1, frag => 1, "un-lex" => 1,
+					 "for-lex" => 1, alpha => 1, acronym => 1,
+					 interjection => 1, propernoun => 1, other => 1},
+		      "NON-LEX"      => {laugh => 1, breath => 1, lipsmack => 1,
+					 cough => 1, sneeze => 1, other => 1},
+		      "NON-SPEECH"   => {noise => 1, music => 1, other => 1},
+		      FILLER         => {filled_pause => 1, discourse_marker => 1,
+					 discourse_response => 1, explicit_editing_term => 1,
+					 other => 1},
+		      EDIT           => {repetition => 1, restart => 1, revision => 1,
+					 simple => 1, complex => 1, other => 1},
+		      IP             => {edit => 1, filler => 1, "edit&filler" => 1,
+					 other => 1},
+		      SU             => {statement => 1, backchannel => 1, question => 1,
+					 incomplete => 1, unannotated => 1, other => 1},
+		      CB             => {coordinating => 1, clausal => 1, other => 1},
+		      "A/P"          => {"<na>" => 1},
+		      SPEAKER        => {"<na>" => 1},
+		      "SPKR-INFO"    => {adult_male => 1, adult_female => 1, child => 1, unknown => 1});
+my %md_subtypes = (FILLER => $rttm_datatypes{FILLER},
+		   EDIT   => $rttm_datatypes{EDIT},
+		   IP     => $rttm_datatypes{IP},
+		   SU     => $rttm_datatypes{SU});
+my %spkr_subtypes = (adult_male => 1, adult_female => 1, child => 1, unknown => 1);
+
+my $noeval_mds = {
+    DEFAULT => {
+	NOSCORE        => {"<na>" => 1},
+	NO_RT_METADATA => {"<na>" => 1},
+    },
+};
+my $noscore_mds = {
+    DEFAULT => {
+	NOSCORE        => {"<na>" => 1},
+	LEXEME         => {"un-lex" => 1},
+	SU             => {unannotated => 1},
+    },
+    MIN => {
+	NOSCORE        => {"<na>" => 1},
+	SU             => {unannotated => 1},
+    },
+    FRAG_UNLEX => {
+	NOSCORE        => {"<na>" => 1},
+	LEXEME         => {frag => 1, "un-lex" => 1},
+	SU             => {unannotated => 1},
+    },
+    FRAG => {
+	NOSCORE        => {"<na>" => 1},
+	LEXEME         => {frag => 1},
+	SU             => {unannotated => 1},
+    },
+    NONE => {
+    },
+};
+my $noeval_sds = {
+    DEFAULT => {
+	NOSCORE        => {"<na>" => 1},
+    },
+};
+my $noscore_sds = {
+    DEFAULT => {
+	NOSCORE        => {"<na>" => 1},
+	"NON-LEX"      => {laugh => 1, breath => 1, lipsmack => 1,
+			   cough => 1, sneeze => 1, other => 1},
+    },
+};
+
+my %speaker_map;
+
+my $default_extend = 0.50; #the maximum time (in seconds) to extend a no-score zone
+my $default_collar = 0.00; #the no-score collar (in +/- seconds) to attach to SPEAKER boundaries
+my $default_tgap = 1.00; #the max gap (in seconds) between matching ref/sys words
+my $default_Tgap = 1.00; #the max gap (in seconds) between matching ref/sys metadata events
+my $default_Wgap = 0.10; #the max gap (in words) between matching ref/sys metadata events
+my $default_su_time_limit = 0.50; #the max extent (in seconds) to match for SU's
+my $default_su_word_limit = 2.00; #the max extent (in words) to match for SU's
+my $default_word_delta_score = 10.0; #the max delta score for word-based DP alignment of ref/sys words
+my $default_time_delta_score = 1.00; #the max delta score for time-based DP alignment of ref/sys words
+
+my $usage = "\n\nUsage: $0 [-h] -r <ref_file> -s <src_file>\n\n".
+    "Description:  md-eval evaluates EARS metadata detection performance\n".
+    "      by comparing system metadata output data with reference data\n".
+    "INPUT:\n".
+    "  -R <ref-list>  A file containing a list of the reference metadata files\n".
+    "       being evaluated, in RTTM format.  If the word-mediated alignment\n".
+    "       option is used then this data must include reference STT data\n".
+    "       in addition to the metadata being evaluated.\n".
+    "  OR\n".
+    "  -r <ref-file>  A file containing reference metadata, in RTTM format\n\n".
+    "  -S <sys-list>  A file containing a list of the system output metadata\n".
+    "       files to be evaluated, in RTTM format.  If the word-mediated\n".
+    "       alignment option is used then this data must include system STT\n".
+    "       output data in addition to the metadata to be evaluated.\n".
+    "  OR\n".
+    "  -s <sys-file>  A file containin system output metadata, in RTTM format\n\n".
+    "  input options:\n".
+    "    -x to include complex edits in the analysis and scoring.\n".
+    "    -w for word-mediated alignment.\n".
+    "       * The default (time-mediated) alignment aligns ref and sys metadata\n".
+    "         according to the time overlap of the original ref and sys metadata\n".
+    "         time intervals.\n".
+    "       * Word-mediated alignment aligns ref and sys metadata according to\n".
+    "         the alignment of the words that are subsumed within the metadata\n".
+    "         time intervals.\n".
+    "    -W for word-optimized mapping.\n".
+    "       * The default (time-optimized) mapping maps ref and sys metadata\n".
+    "         so as to maximize the time overlap of mapped metadata events.\n".
+    "       * Word-optimized mapping maps ref and sys metadata so as to\n".
+    "         maximize the overlap in terms of the number of reference words\n".
+    "         that are subsumed within the overlapping time interval.\n".
+    "    -a <cfgs> Conditional analysis options for metadata detection performance:\n".
+    "         c for performance versus channel,\n".
+    "         f for performance versus file,\n".
+    "         g for performance versus gender, and\n".
+    "         s for performance versus speaker.\n".
+    "    -A <cf> Conditional analysis options for word coverage performance:\n".
+    "         c for performance versus channel,\n".
+    "         f for performance versus file,\n".
+    "    -t <time gap> The maximum time gap allowed between matching reference\n".
+    "       and system output words (in seconds).  Default value is $default_tgap.\n".
+    "    -T <time gap> The maximum time gap allowed between matching reference\n".
+    "       and system output metadata (in seconds).  Default value is $default_Tgap.\n".
+    "    -l <SU extent limit>  The maximum SU extent used to compute overlap\n".
+    "       between reference and system output SU's.  For time-optimized SU\n".
+    "       mapping this is the maximum time extent.  For word-optimized SU\n".
+    "       mapping (using the -W option) this is the maximum number of words.\n".
+    "       SU extent is limited to the last part of the SU. Default value is\n".
+    "       $default_su_time_limit for time-optimized mapping, $default_su_word_limit for word-optimized mapping.\n".
+    "    -u <uem-file> A file containing the evaluation partitions,\n".
+    "       in UEM format.\n".
+    "    -g <glm-file> A file containing word transformations used to\n".
+    "       standardize the representation of words.\n".
+    "    -o to include overlapping speech in MD evaluation.  With this option,\n".
+    "       separate recognition passes are made for each reference speaker.\n".
+    "    -c <collar> is the no-score zone around reference speaker segment\n".
+    "       boundaries.  (Speaker Diarization output is not evaluated within\n".
+    "       +/- collar seconds of a reference speaker segment boundary.)\n".
+    "       Default value is $default_collar seconds.\n".
+    "    -1 to limit scoring to those time regions in which only a single\n".
+    "       speaker is speaking\n".
+    "    -y <name> to select named no-eval conditions for metadata\n".
+    "    -Y <name> to select named no-score conditions for metadata\n".
+    "    -z <name> to select named no-eval conditions for speaker diarization\n".
+    "    -Z <name> to select named no-score conditions for speaker diarization\n".
+    "    -e to examine metadata mapping\n".
+    "    -d to print word alignment and error calculation details\n".
+    "    -D to print metadata event alignment and error calculation details\n".
+    "    -m to print speaker mapping details for speaker diarization\n".
+    "    -M FILE to print speaker mapping details for speaker diarization to a CSV file called 'FILE'\n".
+    "    -v to print the event sequence for each diarization source file\n".
+    "    -n to keep the directory names of the UEM source file entries\n".
+    "OUTPUT:\n".
+    "  Performance statistics are written to STDOUT.\n".
+    "\n";
+
+######
+# Intro
+my ($date, $time) = date_time_stamp();
+print "command line (run on $date at $time) Version: $version  ", $0, " ", join(" ", @ARGV), "\n";
+
+use vars qw ($opt_h $opt_w $opt_W $opt_d $opt_D $opt_R $opt_r $opt_S $opt_s $opt_l $opt_c $opt_x);
+use vars qw ($opt_t $opt_T $opt_g $opt_p $opt_P $opt_o $opt_a $opt_A $opt_u $opt_1 $opt_m $opt_v $opt_e);
+use vars qw ($opt_y $opt_Y $opt_z $opt_Z $opt_n $opt_M);
+$opt_y = $opt_Y = $opt_z = $opt_Z = "DEFAULT";
+use Getopt::Std;
+getopts ('nhdDwWox1mvec:R:r:S:s:t:T:g:p:P:a:A:u:l:y:Y:z:Z:M:');
+not defined $opt_h or die
+    "\n$usage";
+defined $opt_r or defined $opt_R or die
+    "\nCOMMAND LINE ERROR:  no reference data specified$usage";
+not defined $opt_r or not defined $opt_R or die
+    "\nCOMMAND LINE ERROR:  both reference file list and reference file specified$usage";
+defined $opt_s or defined $opt_S or die
+    "\nCOMMAND LINE ERROR:  no system output data specified$usage";
+not defined $opt_s or not defined $opt_S or die
+    "\nCOMMAND LINE ERROR:  both system output file list and system output file specified$usage";
+my $word_gap = defined $opt_t ? $opt_t : $default_tgap;
+my $md_gap = $opt_W ? $default_Wgap : (defined $opt_T ? $opt_T : $default_Tgap);
+my $su_extent_limit = defined $opt_l ? $opt_l :
+    ($opt_W ? $default_su_word_limit : $default_su_time_limit);
+$opt_W ? ($su_extent_limit >= 1 or die "\nCOMMAND LINE ERROR:  SU extent limit must be at least 1 for word-based MD alignment$usage") :
+         ($su_extent_limit > 0 or die "\nCOMMAND LINE ERROR:  SU extent limit must be positive for time-based MD alignment$usage");
+my $max_wd_delta_score = $opt_w ? $default_word_delta_score : $default_time_delta_score;
+$max_wd_delta_score = $opt_p if defined $opt_p;
+my $max_md_delta_score = $opt_W ? $default_word_delta_score : $default_time_delta_score;
+$max_md_delta_score = $opt_P if defined $opt_P;
+my $collar = defined($opt_c) ? $opt_c : $default_collar;
+$collar >= 0 or die
+    "\nCOMMAND LINE ERROR:  Speaker Diarization scoring collar ('$collar') must be non-negative$usage";
+my $max_extend = $default_extend;
+$opt_a = "" unless defined $opt_a;
+$opt_A = "" unless defined $opt_A;
+start_speaker_map_file($opt_M) if $opt_M;
+
+my $noeval_md = eval_condition ($opt_y, $noeval_mds, "no-eval", "metadata");
+my $noscore_md = eval_condition ($opt_Y, $noscore_mds, "no-score", "metadata");
+my $noeval_sd = eval_condition ($opt_z, $noeval_sds, "no-score", "speaker diarization");
+my $noscore_sd = eval_condition ($opt_Z, $noscore_sds, "no-score", "speaker diarization");
+
+my %type_order = (NOSCORE        => 0,
+		  NO_RT_METADATA => 1,
+		  SEGMENT        => 2,
+		  SPEAKER        => 3,
+		  SU             => 4,
+		  "A/P"          => 5,
+		  "NON-SPEECH"   => 6,
+		  EDIT           => 7,
+		  FILLER         => 8,
+		  IP             => 9,
+		  CB             => 10,
+		  "NON-LEX"      => 11,
+		  LEXEME         => 12);
+my %event_order = (END => 0,
+		   MID => 1,
+		   BEG => 2);
+my %source_order = (REF => 0,
+		    SYS => 1);
+
+{
+    my (%ref, %sys, $glm, $uem);
+
+    print_parameters ();
+    ($glm) = get_glm_data ($opt_g);
+    get_rttm_file (\%ref, $opt_r, $glm);
+    get_rttm_data (\%ref, $opt_R, $glm);
+    get_rttm_file (\%sys, $opt_s, $glm);
+    get_rttm_data (\%sys, $opt_S, $glm);
+
+    ($uem) = get_uem_data ($opt_u, $opt_n);
+    evaluate (\%ref, \%sys, $uem);
+}
+
+exit 0;
+
+#################################
+
+sub eval_condition {
+
+    my ($name, $conditions, $exclusion, $evaluation) = @_;
+
+    $name = "DEFAULT" unless $name;
+    return $conditions->{$name} if defined $conditions->{$name};
+    print STDERR "\nCOMMAND LINE ERROR:  unknown name ($name) of $exclusion conditions for $evaluation\n".
+	"    available $exclusion conditions for $evaluation are:\n\n";
+    foreach $name (sort keys %$conditions) {
+	printf STDERR "%-24stype    subtype\n", "    for \"$name\":";
+	foreach my $type (sort keys %{$conditions->{$name}}) {
+	    foreach my $subt (sort keys %{$conditions->{$name}{$type}}) {
+		printf STDERR "%28s    %s\n", $type, $subt;
+	    }
+	}
+	print "\n";
+    }
+    die "$usage";
+}    
+
+#################################
+
+sub print_parameters {
+
+    print $opt_w ? "\nWord-based metadata alignment, max gap between matching words = $word_gap sec\n" :
+	"\nTime-based metadata alignment\n";
+    print "\nMetadata evaluation parameters:\n";
+    $opt_W ? (print "    word-optimized metadata mapping\n".
+	            "        max gap between matching metadata events = $md_gap words\n".
+	            "        max extent to match for SU's = $su_extent_limit words\n") :
+	     (print "    time-optimized metadata mapping\n".
+		    "        max gap between matching metadata events = $md_gap sec\n".
+		    "        max extent to match for SU's = $su_extent_limit sec\n");
+    print "\nSpeaker Diarization evaluation parameters:\n".
+	  "    The max time to extend no-score zones for NON-LEX exclusions is $max_extend sec\n".
+	  "    The no-score collar at SPEAKER boundaries is $collar sec\n";
+    printf "\nExclusion zones for evaluation and scoring are:\n".
+	   "                             -----MetaData-----        -----SpkrData-----\n".
+	   "     exclusion set name:%12s%11s%15s%11s\n".
+	   "     token type/subtype      no-eval   no-score        no-eval   no-score\n",
+	       $opt_y, $opt_Y, $opt_z, $opt_Z;
+    print  "             (UEM)              X                         X\n";
+    foreach my $type (sort keys %rttm_datatypes) {
+	foreach my $subt (sort keys %{$rttm_datatypes{$type}}) {
+	    next unless ($noeval_md->{$type}{$subt} or
+			 $noscore_md->{$type}{$subt} or
+			 $noeval_sd->{$type}{$subt} or
+			 $noscore_sd->{$type}{$subt});
+	    printf "%15s/%-14s", $type, $subt;
+	    printf "%3s", $noeval_md->{$type}{$subt} ? "X" : "";
+	    printf "%10s", $noscore_md->{$type}{$subt} ? "X" : "";
+	    printf "%16s", $noeval_sd->{$type}{$subt} ? "X" : "";
+	    printf "%10s\n", $noscore_sd->{$type}{$subt} ? "X" : "";
+	}
+    }
+}
+
+#################################
+
+sub get_glm_data {
+
+    my ($file) = @_;
+    my ($record, @fields, $word, %words, %data);
+
+    return unless defined $file;
+    open DATA, $file or die
+	"\nCOMMAND LINE ERROR:  unable to open glm file '$file'$usage";
+    while ($record = <DATA>) {
+	next if $record =~ /^\s*$/;
+	next if $record =~ /^\s*(\[|\*|\%|\;)/;
+        @fields = split /\s+=>\s+/, lc $record;
+	shift @fields if $fields[0] eq "";
+        next unless @fields > 1;
+	$fields[0] =~ s/^\s+//;
+        $fields[1] =~ s/[^a-z-'_ \.].*//;
+        next if $fields[0] =~ /^\s*$/ or $fields[1] =~ /^\s*$/;
+        $data{$fields[0]} = [split /\s+/, $fields[1]];
+    }
+    close DATA;
+    return {%data};
+}
+
+#################################
+
+sub get_uem_data {
+
+    my ($file, $keepDirectoryPath) = @_;
+    my ($record, @fields, $seg, $chnl, %data);
+
+    return unless defined $file;
+    open DATA, $file or die
+	"\nCOMMAND LINE ERROR:  unable to open uem file '$file'$usage";
+    while ($record = <DATA>) {
+	next if $record =~ /^\s*[\#;]|^\s*$/;
+	@fields = split /\s+/, $record;
+	shift @fields if $fields[0] eq "";
+	@fields >= 4 or die
+	    ("\n\nFATAL ERROR:  insufficient number of fields in UEM record\n".
+	     "    record is: '$record'\n\n");
+	undef $seg;
+	$seg->{FILE} = shift @fields;
+	$seg->{CHNL} = lc shift @fields;
+	$seg->{TBEG} = lc shift @fields;
+	$seg->{TEND} = lc shift @fields;
+        $seg->{FILE} =~ s/.*\/// if (! $keepDirectoryPath);      #strip directory 
+        $seg->{FILE} =~ s/\.[^.]*//;   #strip file type
+        $seg->{TBEG} =~ s/[^0-9\.]//g; #strip non-numeric (commas)
+        $seg->{TEND} =~ s/[^0-9\.]//g; #strip non-numeric (commas)
+	push @{$data{$seg->{FILE}}{$seg->{CHNL}}}, $seg;
+    }
+    close DATA;
+
+#sort and check data
+    foreach $file (keys %data) {
+	foreach $chnl (keys %{$data{$file}}) {
+	    @{$data{$file}{$chnl}} =
+		sort {$a->{TBEG} <=> $b->{TBEG}} @{$data{$file}{$chnl}};
+	    my $prev_seg;
+	    foreach $seg (@{$data{$file}{$chnl}}) {
+		$seg->{TEND} > $seg->{TBEG} or die
+		    "\n\nFATAL ERROR:  non-positive evaluation segment length in UEM data for file $file, channel $chnl\n\n";
+		not defined $prev_seg or $seg->{TBEG} >= $prev_seg->{TEND} or die
+		    ("\n\nFATAL ERROR:  UEM file has overlapping evaluation segments\n".
+		     "    file $file, channel $chnl:  ($prev_seg->{TBEG},$prev_seg->{TEND}),".
+		     " ($seg->{TBEG},$seg->{TEND})\n\n");
+		$prev_seg = $seg;
+	    }
+	}
+    }
+    return {%data};
+}
+
+#################################
+
+sub get_rttm_data {
+
+    my ($data, $list, $glm) = @_;
+
+    return unless defined $list;
+    open LIST, $list or die
+	"\nCOMMAND LINE ERROR:  unable to open file list '$list'$usage";
+    while (my $file = <LIST>) {
+	get_rttm_file ($data, $file, $glm);
+    }
+    close LIST;
+}    
+
+#################################
+
+sub get_rttm_file {
+
+    my ($data, $rttm_file, $glm) = @_;
+    my ($record, @fields, $data_type, $file, $chnl, $word, @words, $token);
+
+    return unless defined $rttm_file;
+    open DATA, $rttm_file or die
+	"\nCOMMAND LINE ERROR:  unable to open RTTM file '$rttm_file'$usage";
+    while ($record = <DATA>) {
+	next if $record =~ /^\s*[\#;]|^\s*$/;
+	@fields = split /\s+/, $record;
+	shift @fields if $fields[0] eq "";
+	@fields >= 9 or die
+	    ("\n\nFATAL ERROR:  insufficient number of fields in RTTM file '$rttm_file'\n".
+	     "    input RTTM record is: '$record'\n\n");
+	$data_type = uc shift @fields;
+	undef $token;
+	$token->{TYPE} = $data_type;
+	$token->{FILE} = $file = shift @fields;
+	$token->{CHNL} = $chnl = lc shift @fields;
+	$token->{TBEG} = lc shift @fields;
+	$token->{TBEG} =~ s/\*//;
+	$token->{TDUR} = lc shift @fields;
+	$token->{TDUR} =~ s/\*//;
+	$token->{TDUR} = 0 if $token->{TDUR} eq "<na>";
+	$token->{TDUR} >= 0 or die
+	    ("\n\nFATAL ERROR -- negative metadata duration in file $file,'\n".
+	     "    input RTTM record is: '$record'\n\n");
+	$token->{WORD} = lc shift @fields;
+	$token->{SUBT} = lc shift @fields;
+	$rttm_datatypes{$token->{TYPE}}{$token->{SUBT}} or die
+	    ("\n\nFATAL ERROR:  unknown RTTM data type/subtype ('$token->{TYPE}'/'$token->{SUBT}') in file $rttm_file\n".
+	     "    input RTTM record is: '$record'\n\n");
+	$token->{SPKR} = shift @fields;
+	$token->{CONF} = lc shift @fields;
+	$token->{CONF} = "-"       unless defined $token->{CONF};
+	$token->{SPKR} = "<na>" unless defined $token->{SPKR};
+	if ($data_type eq "SPKR-INFO") {
+	    not defined $data->{$file}{$chnl}{$data_type}{$token->{SPKR}} or die
+		("\n\nFATAL ERROR:  multiple $data_type records for speaker $token->{SPKR} in file $file\n".
+		 "    input RTTM record is: '$record'\n\n");
+	    defined $spkr_subtypes{$token->{SUBT}} or die
+		("\n\nFATAL ERROR:  unknown $data_type subtype ($token->{SUBT}) in file '$file'\n".
+		 "    input RTTM record is: '$record'\n\n");
+	    $data->{$file}{$chnl}{$data_type}{$token->{SPKR}}{GENDER} = $token->{SUBT};
+	}
+	else {
+	    $token->{TEND} = $token->{TBEG}+$token->{TDUR};
+	    $token->{TMID} = $token->{TBEG}+$token->{TDUR}/2;
+	}
+
+	if ($data_type eq "LEXEME") {
+	    $token->{WTYP} = ($token->{SUBT} =~ /^fp$/         ? "fp"      :
+			      ($token->{SUBT} =~ /^frag$/      ? "frag"    :
+			       ($token->{SUBT} =~ /^un-lex$/   ? "un-lex"  :
+				($token->{SUBT} =~ /^for-lex$/ ? "for-lex" : "lex"))));
+	    @words = standardize_word ($token, $glm);
+	    foreach $word (@words) {
+		push @{$data->{$file}{$chnl}{LEXEME}}, $word;
+		push @{$data->{$file}{$chnl}{RTTM}}, $word;
+	    }
+	}
+	elsif ($data_type eq "SPEAKER") {
+	    push @{$data->{$file}{$chnl}{SPEAKER}{$token->{SPKR}}}, $token;
+	    push @{$data->{$file}{$chnl}{RTTM}}, $token;
+	}
+	elsif ($md_subtypes{$token->{TYPE}}) {
+	    defined $md_subtypes{$token->{TYPE}}{$token->{SUBT}} or die
+		("\n\nFATAL ERROR:  unknown $data_type subtype ($token->{SUBT}) in file '$file'\n".
+		 "    input RTTM record is: '$record'\n\n");
+	    push @{$data->{$file}{$chnl}{$data_type}}, $token;
+	    push @{$data->{$file}{$chnl}{RTTM}}, $token;
+	}
+	elsif ($data_type ne "SPKR-INFO") {
+	    push @{$data->{$file}{$chnl}{RTTM}}, $token;
+	}
+    }
+    close DATA;
+
+#sort and check data
+    foreach $file (keys %$data) {
+	foreach $chnl (keys %{$data->{$file}}) {
+	    foreach $data_type (keys %{$data->{$file}{$chnl}}) {
+		next if $data_type eq "SPKR-INFO";
+		if ($data_type eq "SPEAKER") {
+		    foreach my $spkr (keys %{$data->{$file}{$chnl}{$data_type}}) {
+			my $gender = $data->{$file}{$chnl}{"SPKR-INFO"}{$spkr}{GENDER};
+			$gender = $data->{$file}{$chnl}{"SPKR-INFO"}{$spkr}{GENDER} = "unknown" if not $gender;
+			@{$data->{$file}{$chnl}{$data_type}{$spkr}} =
+			    sort {$a->{TMID}<=>$b->{TMID}} @{$data->{$file}{$chnl}{$data_type}{$spkr}};
+			my $prev_token;
+			foreach $token (@{$data->{$file}{$chnl}{$data_type}{$spkr}}) {
+			    $token->{SUBT} = $gender;
+			    next unless $prev_token;
+			    not $prev_token or $token->{TBEG} >= $prev_token->{TEND}-$epsilon or die
+				("\n\nFATAL ERROR:  RTTM file has overlapping $data_type tokens for speaker $spkr\n".
+				 "    in file $file, channel $chnl:  ($prev_token->{TBEG},$prev_token->{TEND}),".
+				 " ($token->{TBEG},$token->{TEND})\n\n");
+			    $prev_token = $token;
+			}
+		    }
+		}
+		else {
+		    @{$data->{$file}{$chnl}{$data_type}} =
+			sort {$a->{TMID} <=> $b->{TMID}} @{$data->{$file}{$chnl}{$data_type}};
+		}
+	    }
+	}
+    }
+}
+
+#################################
+
+sub evaluate {
+
+    my ($ref_data, $sys_data, $uem_data) = @_;
+    my ($uem, $uem_sd_eval, $uem_sd_score, $uem_md_eval, $uem_md_score);
+    my ($ref_wds, $sys_wds, $ref_mds, $sys_mds, $type, %scores, $ref_rttm, $sys_rttm);
+
+    foreach my $file (sort keys %$ref_data) {
+	foreach my $chnl (sort keys %{$ref_data->{$file}}) {
+	    $ref_rttm = $ref_data->{$file}{$chnl}{RTTM};
+	    $sys_rttm = $sys_data->{$file}{$chnl}{RTTM};
+	    $ref_wds = $ref_data->{$file}{$chnl}{LEXEME} ? $ref_data->{$file}{$chnl}{LEXEME} : [];
+	    $sys_wds = $sys_data->{$file}{$chnl}{LEXEME} ? $sys_data->{$file}{$chnl}{LEXEME} : [];
+	    $uem = $uem_data->{$file}{$chnl};
+	    $uem = uem_from_rttm ($ref_rttm) if not defined $uem;
+	    @$ref_wds > 0 or not $opt_w or die
+		"\n\nFATAL ERROR:  no reference words for file '$file' and channel '$chnl'\n\n";
+	    @$sys_wds > 0 or not $opt_w or die
+		"\n\nFATAL ERROR:  no system output words for file '$file' and channel '$chnl'\n".
+		    "              Words are required for word-mediated alignment\n\n";
+	    if ($ref_wds and ($opt_w or $opt_e)) {
+	        tag_words_with_metadata_attributes ($ref_rttm, $ref_wds);
+	        tag_words_with_metadata_attributes ($sys_rttm, $sys_wds);
+	        perform_word_alignment ($file, $chnl, $ref_wds, $sys_wds, $uem);
+	    }
+	    $uem_md_eval = add_exclusion_zones_to_uem ($noeval_md, $uem, $ref_rttm);
+	    $uem_md_score = add_exclusion_zones_to_uem ($noscore_md, $uem_md_eval, $ref_rttm);
+	    $uem_md_score = exclude_overlapping_speech_from_uem ($uem_md_score, $ref_rttm) if $opt_1;
+ 	    tag_scoreable_words ($ref_wds, $uem_md_score);
+	    foreach $type (sort keys %md_subtypes) {
+		$ref_mds = $ref_data->{$file}{$chnl}{$type};
+		next unless defined $ref_mds;
+		@$ref_wds > 0 or die
+		    "\n\nFATAL ERROR:  no reference words for file '$file' and channel '$chnl'\n\n";
+		$sys_mds = $sys_data->{$file}{$chnl}{$type};
+		$sys_mds = $sys_data->{$file}{$chnl}{$type} = [] unless defined $sys_mds;
+		map_metadata_to_words ($sys_mds, $sys_wds, $ref_mds, $ref_wds);
+		discard_unevaluated_metadata ($uem_md_eval, $type, $ref_mds, $ref_wds, "REF");
+		next if @$ref_mds == 0;
+		align_data ($ref_mds, $sys_mds, "", \&md_score, $max_md_delta_score);
+		trace_best_path ($ref_mds, $sys_mds);
+		discard_metadata_subtype ("EDIT", "complex", $ref_mds, $sys_mds) if $type eq "EDIT" and $opt_x;
+		discard_metadata_subtype ("SU", "unannotated", $ref_mds, $sys_mds) if $type eq "SU";
+		discard_unevaluated_metadata ($uem_md_eval, $type, $sys_mds, $ref_wds, "SYS");
+		($scores{$type}{$file}{$chnl}) = score_metadata_path
+		    ($type, $file, $chnl, $ref_mds, $sys_mds, $ref_wds);
+	    }
+
+	    $ref_mds = $ref_data->{$file}{$chnl}{SPEAKER};
+	    if (defined $ref_mds) {
+		@$ref_wds > 0 or not $opt_W or die
+		    "\n\nFATAL ERROR:  no reference words for file '$file' and channel '$chnl'\n\n";
+		$uem_sd_eval = add_exclusion_zones_to_uem ($noeval_sd, $uem, $ref_rttm);
+		$sys_mds = $sys_data->{$file}{$chnl}{SPEAKER};
+		$sys_mds = $sys_data->{$file}{$chnl}{SPEAKER} = {} unless defined $sys_mds;
+		map_spkrdata_to_words ($sys_mds, $sys_wds, $ref_mds, $ref_wds);
+		($scores{SPEAKER}{$file}{$chnl}) = score_speaker_diarization
+		    ($file, $chnl, $ref_mds, $sys_mds, $ref_wds, $uem_sd_eval, $ref_rttm);
+	    }
+
+	    if ($opt_e) {
+		discard_unevaluated_metadata ($uem, "LEXEME", $ref_rttm);
+		discard_unevaluated_metadata ($uem, "LEXEME", $sys_rttm);
+		discard_unevaluated_metadata ($uem_md_eval, "", $ref_rttm);
+		discard_metadata_subtype ("EDIT", "complex", $ref_rttm, $sys_rttm) if $opt_x;
+		discard_metadata_subtype ("SU", "unannotated", $ref_rttm, $sys_rttm);
+		discard_unevaluated_metadata ($uem_md_eval, "", $sys_rttm);
+		display_metadata_mapping ($file, $chnl, $ref_rttm, $sys_rttm, $ref_wds);
+	    }
+	}
+    }
+
+    foreach $type (sort keys %md_subtypes) {
+	md_performance_analysis ($type, $scores{$type}, $md_subtypes{$type}, $ref_data)
+	    if $scores{$type};
+    }
+    sd_performance_analysis ($scores{SPEAKER}, \%spkr_subtypes)
+	if $scores{SPEAKER};
+}
+
+#################################
+
+sub perform_word_alignment {
+
+    my ($file, $chnl, $ref_wds, $sys_wds, $uem) = @_;
+
+    my @ref_wds = @$ref_wds;
+    my @sys_wds = @$sys_wds;
+    discard_unevaluated_words ($uem, \@ref_wds);
+    discard_unevaluated_words ($uem, \@sys_wds);
+    @ref_wds > 0 or die
+	"\n\nFATAL ERROR:  no reference words in UEM portion of file '$file' and channel '$chnl'\n\n";
+    @sys_wds > 0 or not $opt_w or die
+	"\n\nFATAL ERROR:  no system output words in UEM portion of file '$file' and channel '$chnl'\n".
+	    "              Words are required for word-mediated alignment\n\n";
+    return unless @sys_wds > 0;
+
+    if ($opt_o) {
+	foreach my $spkr (word_kinds ($ref_wds, "SPKR")) {
+	    align_data ($ref_wds, $sys_wds, $spkr, \&word_score, $max_wd_delta_score);
+	    trace_best_path ($ref_wds, $sys_wds, $spkr);
+	}
+	decide_who_spoke_the_words ($ref_wds, $sys_wds);
+    }
+    else {
+	align_data ($ref_wds, $sys_wds, "", \&word_score, $max_wd_delta_score);
+	trace_best_path ($ref_wds, $sys_wds);
+    }
+
+#map system output word times to ref words
+    foreach my $wd (@$sys_wds) {
+	$wd->{RTBEG} = adjust_sys_time_to_ref ($wd->{TBEG}, $sys_wds);
+	$wd->{RTEND} = adjust_sys_time_to_ref ($wd->{TEND}, $sys_wds);
+	$wd->{RTDUR} = $wd->{RTEND} - $wd->{RTBEG};
+	$wd->{RTMID} = $wd->{RTBEG} + $wd->{RTDUR}/2;
+    }
+    score_word_path ($file, $chnl, $ref_wds, $sys_wds) if $opt_d;
+}
+
+################################
+
+sub time_in_eval_partition {
+
+    my ($time, $uem_eval) = @_;
+
+    return 1 unless defined $uem_eval; #not using UEM partition specification
+    foreach my $partition (@$uem_eval) {
+	return 1 if event_covers_time ($partition, $time);
+    }
+    return 0;
+}
+
+#################################
+
+sub discard_unevaluated_words {
+
+    my ($uem, $wds) = @_;
+
+    for (my $index=0; $index<@$wds; $index++) {
+	splice (@$wds, $index--, 1)
+	    if ($wds->[$index]{TYPE} eq "LEXEME" and
+		not time_in_eval_partition ($wds->[$index]{TMID}, $uem));
+    }
+}
+
+#################################
+
+sub discard_unevaluated_metadata {
+
+    my ($uem_eval, $type, $mds, $ref_wds, $src) = @_;
+
+    for (my $index=0; $index<@$mds; $index++) {
+	my $md = $mds->[$index];
+	next if (($type and $md->{TYPE} ne $type) or
+		 (not $type and not $md_subtypes{$md->{TYPE}}) or
+		 $md->{MAPPTR} or
+		 md_in_uem ($md, $uem_eval));
+	warn_if_discarded_md_covers_scored_lexemes ($md, $ref_wds, $uem_eval, $src) if $ref_wds;
+	splice (@$mds, $index--, 1);
+    }
+}
+
+#################################
+
+sub warn_if_discarded_md_covers_scored_lexemes {
+
+    my ($md, $ref_wds, $uem, $source) = @_;
+    my ($wbeg, $wend, $index);
+    
+    ($wbeg, $wend) = md_word_indices ($md, $ref_wds);
+
+    for ($index=$wbeg; $index<=$wend; $index++) {
+	next unless ($ref_wds->[$index]{SCOREABLE} and
+		     time_in_eval_partition ($ref_wds->[$index]{TMID}, $uem));
+	warn "\nWARNING:  A $source metadata event is being deleted that covers evaluated reference LEXEMEs\n".
+	    "    (type=$md->{TYPE}, subtype=$md->{SUBT}, spkr=$md->{SPKR}, TBEG=$md->{TBEG}, TEND=$md->{TEND})\n";
+	last;
+    }	
+}
+
+#################################
+
+sub discard_metadata_subtype {
+
+    my ($type, $subtype, $ref_mds, $sys_mds) = @_;
+    my ($iref, $isys, $ref_md, $sys_md);
+
+#discard all sys $type events that map to a ref event with subtype = $subtype
+#or that are unmapped and have midpoints that lie within a ref event with subtype = $subtype
+    for ($iref=0; $iref<@$ref_mds; $iref++) {
+	$ref_md = $ref_mds->[$iref];
+	next unless ($ref_md->{TYPE} eq $type and
+		     $ref_md->{SUBT} eq $subtype);
+	for ($isys=0; $isys<@$sys_mds; $isys++) {
+	    $sys_md = $sys_mds->[$isys];
+	    splice (@$sys_mds, $isys--, 1)
+		if ($sys_md->{TYPE} eq $type and
+		    (($sys_md->{MAPPTR} and $sys_md->{MAPPTR}{SUBT} eq $subtype) or
+		     (not $sys_md->{MAPPTR} and event_covers_time ($ref_md, $sys_md->{RTMID}))));
+	}
+
+#discard all ref $type/$subtype events
+	splice (@$ref_mds, $iref--, 1);
+    }
+}
+
+#################################
+
+sub tag_scoreable_words {
+
+    my ($wds, $uem_eval) = @_;
+
+    foreach my $wd (@$wds) {
+	$wd->{SCOREABLE} = time_in_eval_partition ($wd->{TMID}, $uem_eval);
+    }
+}
+
+#################################
+
+sub tag_words_with_metadata_attributes {
+
+    my ($mds, $wds) = @_;
+    my ($md, $iwbeg, $iwend, $iw, $wd, $type);
+
+    foreach $md (@$mds) {
+	$type = $md->{TYPE};
+	next unless $type =~ /^(FILLER|EDIT|SU|IP)$/;
+	($iwbeg, $iwend) = md_word_indices ($md, $wds);
+	if ($type =~ /^(FILLER|EDIT)$/) {
+	    for ($iw=$iwbeg; $iw<=$iwend; $iw++) {
+		$wds->[$iw]{ATTRIBUTES}{$md->{TYPE}} = $md->{SUBT};
+	    }
+	}
+	elsif ($type =~ /^(SU|IP)$/) {
+	    $wds->[$iwend]{ATTRIBUTES}{$md->{TYPE}} = $md->{SUBT};
+	}
+    }
+    return;
+}
+
+#################################
+
+sub tag_ref_words_with_metadata_info {
+
+    my ($mds, $wds, $src) = @_;
+    my ($md, $iwbeg, $iwend, $iw, $type);
+
+    foreach $md (@$mds) {
+	$type = $md->{TYPE};
+	($iwbeg, $iwend) = $src eq "REF" ?
+	    ($md->{WBEG}, $md->{WEND}) : ($md->{RWBEG}, $md->{RWEND}) ;
+	if ($type =~ /^(FILLER|EDIT)$/) {
+	    for ($iw=max($iwbeg,0); $iw<=min($iwend,@$wds-1); $iw++) {
+		$wds->[$iw]{"$src-$type"}{$md->{SUBT}}{MAP}++;
+	    }
+	}
+	elsif ($type =~ /^(SU|IP)$/) {
+	    $iwend = min(max($iwend,0),@$wds-1);
+	    $wds->[$iwend]{"$src-$type"}{$md->{SUBT}}{defined $md->{MAPPTR} ? "MAP" : "NOT"}++;
+	}
+    }
+    return;
+}
+
+#################################
+
+sub md_performance_analysis {
+
+    my ($metadata_type, $counts, $subtypes, $ref_data) = @_;
+    my ($file, $chnl, $spkr, $word, $type, $type_counts, $key);
+    my (@files, @chnls, @spkrs, @types, %nevent, %nwerr);
+    my ($subtype, $sys_subtype, %nconf, %offsets);
+
+#compute marginal counts
+    @files = keys %$counts;
+    foreach $file (@files) {
+	@chnls = keys %{$counts->{$file}};
+	foreach $chnl (@chnls) {
+	    $type_counts = $counts->{$file}{$chnl};
+	    foreach $type ("REF", "DEL", "INS", "SUB") {
+	        next unless defined $type_counts->{WORDS}{$type};
+		$nwerr{ALL}{$type} += $type_counts->{WORDS}{$type};
+		$nwerr{"c=$chnl f=$file"}{$type} += $type_counts->{WORDS}{$type} if $opt_A =~ /c/i and $opt_A =~ /f/i;
+		$nwerr{"c=$chnl"}{$type} += $type_counts->{WORDS}{$type} if $opt_A =~ /c/i and not $opt_A =~ /f/i;
+		$nwerr{"f=$file"}{$type} += $type_counts->{WORDS}{$type} if $opt_A =~ /f/i and not $opt_A =~ /c/i;
+	    }
+	    foreach $type ("WBEG", "WEND") {
+		foreach $key (keys %{$type_counts->{WORD_OFFSET}{$type}}) {
+		    $offsets{ALL}{$type}{$key} += $type_counts->{WORD_OFFSET}{$type}{$key};
+		}
+	    }
+	    my $spkr_info = $ref_data->{$file}{$chnl}{"SPKR-INFO"};
+	    $spkr_info->{unknown}{GENDER} = "unknown" unless defined $spkr_info->{unknown};
+	    foreach $type (keys %$type_counts) {
+		next unless $type =~ /^(REF|DEL|INS|SUB|CONFUSION)$/;
+		@spkrs = keys %{$type_counts->{$type}};
+		foreach $spkr (@spkrs) {
+		    my $gndr = $spkr_info->{$spkr}{GENDER};
+		    foreach $subtype (keys %$subtypes) {
+			my $count = $type_counts->{$type}{$spkr}{$subtype};
+			next unless $count;
+			if ($type eq "CONFUSION") {
+			    foreach $sys_subtype (keys%$count) {
+				$nconf{ALL}{$subtype}{$sys_subtype} += $count->{$sys_subtype};
+				$nconf{ALL}{$subtype}{$sys_subtype} = 0 if not $nconf{ALL}{$subtype}{$sys_subtype};
+				$nconf{ALL}{$sys_subtype}{$subtype} = 0 if not $nconf{ALL}{$sys_subtype}{$subtype};
+			    }
+			    next;
+			}
+			$nconf{ALL}{$subtype}{"{Miss}"} += $count if $type eq "DEL";
+			$nconf{ALL}{"{FA}"}{$subtype} += $count if $type eq "INS";
+			$nconf{ALL}{$subtype}{"{Miss}"} = 0 unless defined $nconf{ALL}{$subtype}{"{Miss}"};
+			$nconf{ALL}{"{FA}"}{$subtype} = 0 unless defined $nconf{ALL}{"{FA}"}{$subtype};
+			$nevent{ALL}{$type} += $count;
+			$nevent{"c=$chnl f=$file"}{$type} += $count if $opt_a =~ /c/i and $opt_a =~ /f/i;
+			$nevent{"c=$chnl"}{$type} += $count if $opt_a =~ /c/i and not $opt_a =~ /f/i;
+			$nevent{"f=$file"}{$type} += $count if $opt_a =~ /f/i and not $opt_a =~ /c/i;
+			$nevent{"s=$spkr"}{$type} += $count if $opt_a =~ /s/i;
+			$nevent{"g=$gndr"}{$type} += $count if $opt_a =~ /g/i;
+		    }
+		}
+	    }
+	}
+    }
+    print_md_scores ($metadata_type, \%nevent, \%nconf, \%offsets, \%nwerr);
+}
+
+#################################
+
+sub print_offset_stats {
+
+    my ($counts) = @_;
+    my (@offsets, $count, $min, $max, $i);
+
+    @offsets = (keys %{$counts->{WBEG}}, keys %{$counts->{WEND}});
+    $min = min (-3, @offsets);
+    $max = max (3, @offsets);
+    print "  word offsets:  <-3  ";
+    for ($i=-3; $i<=3; $i++) {
+	printf "%5d", $i;
+    }
+    print "     >3\n";
+    print "           BEG:";
+    for ($count=0,$i=$min; $i<-3; $i++) {
+	$count += $counts->{WBEG}{$i} if defined $counts->{WBEG}{$i};
+    }	    
+    printf "%5d  ", $count if defined $count;
+    print "    -  ", unless defined $count;
+    for ($i=-3; $i<=3; $i++) {
+	$count = $counts->{WBEG}{$i};
+	printf "%5d", $count if defined $count;
+	print "    -", unless defined $count;
+    }
+    for ($count=0,$i=4; $i<=$max; $i++) {
+	$count += $counts->{WBEG}{$i} if defined $counts->{WBEG}{$i};
+    }	    
+    printf "%7d", $count if defined $count;
+    print "      -", unless defined $count;
+    
+    print "\n           END:";
+    for ($count=0,$i=$min; $i<-3; $i++) {
+	$count += $counts->{WEND}{$i} if defined $counts->{WEND}{$i};
+    }	    
+    printf "%5d  ", $count if defined $count;
+    print "    -  ", unless defined $count;
+    for ($i=-3; $i<=3; $i++) {
+	$count = $counts->{WEND}{$i};
+	printf "%5d", $count if defined $count;
+	print "    -", unless defined $count;
+    }
+    for ($count=0,$i=4; $i<=$max; $i++) {
+	$count += $counts->{WEND}{$i} if defined $counts->{WEND}{$i};
+    }	    
+    printf "%7d", $count if defined $count;
+    print "      -", unless defined $count;
+    print "\n";
+}
+
+#################################
+
+sub print_md_scores {
+
+    my ($metadata_type, $event_counts, $conf_counts, $offset_counts, $word_counts) = @_;
+    my ($type, $nerr, $norm, $name, $ref, $sys, $category, $counts);
+    my ($count, $min, $max, $i, @offsets);
+    my $head_format = "%36s   %5s %5s %5s   %6s %6s %6s   %6s %6s\n";
+    my $data_format = "%-28.28s   %5d   %5d %5d %5s   %6.2f %6.2f %6.2f   %6.2f %6.2f\n";
+    my @header = ("Nref", "Ndel", "Nins", "Nsub", "%Del", "%Ins", "%Sub", "%D+I", "%Tot");
+
+    $counts = $word_counts->{ALL};
+    $nerr = $counts->{DEL} + $counts->{INS};
+    $nerr += $counts->{SUB} if $metadata_type =~ /^(SU|FILLER)$/;
+    printf "\n*** Performance analysis for %ss ***  overall error SCORE = %.2f%s\n",
+        $metadata_type,	100*$nerr/max($counts->{REF},$epsilon), "%";
+
+#metadata word detection
+    print "\nSU (exact) end detection statistics" if $metadata_type eq "SU";
+    print "\nIP (exact) detection statistics" if $metadata_type eq "IP";
+    print "\n$metadata_type word coverage statistics" unless $metadata_type =~ /^(SU|IP)$/;
+    print " -- in terms of reference words\n";
+    printf $head_format, @header;
+    foreach $category (sort keys %$word_counts) {
+	printf $data_format, ($category ne "ALL" ? $category : " "x17 ."ALL",
+			      error_output ($word_counts->{$category}));
+    }
+
+#metadata event detection
+    print "\n$metadata_type detection statistics -- in terms of \# of $metadata_type"."s\n";
+    printf $head_format, @header;
+    foreach $category (sort keys %$event_counts) {
+	printf $data_format, ($category ne "ALL" ? $category : " "x17 ."ALL",
+			      error_output ($event_counts->{$category}));
+    }
+
+#metadata event classification
+    print "\n$metadata_type detection confusion matrix -- in terms of \# of $metadata_type"."s\n";
+    foreach $category (sort keys %$conf_counts) {
+	$counts = $conf_counts->{$category};
+	printf "%24.24s", "$category - ref\\sys";
+	foreach $name (sort keys %$counts, "{Miss}") {
+	    next if $name eq "{FA}";
+	    print "    " if $name eq "{Miss}";
+	    printf "%10.8s", $name;
+	}
+	print "\n";
+	foreach $ref (sort keys %$counts) {
+	    print "\n" if $ref eq "{FA}";
+	    printf "%24.24s", $ref;
+	    foreach $sys (sort keys %$counts, "{Miss}") {
+		next if $sys eq "{FA}" or ($ref eq "{FA}" and $sys eq "{Miss}");
+		print "    " if $sys eq "{Miss}";
+		printf "%8d  ", $counts->{$ref}{$sys} ? $counts->{$ref}{$sys} : 0;
+	    }
+	    print "\n";
+	}
+    }
+
+#offsets
+    foreach $category (sort keys %$offset_counts) {
+	print "\n$metadata_type word offset statistics for $category data\n";
+	print_offset_stats ($offset_counts->{$category});
+    }
+}
+
+#################################
+
+sub error_output {
+
+    my ($counts) = @_;
+    my (@output, $item, $nerr);
+
+    foreach $item ("REF", "DEL", "INS", "SUB") {
+	$counts->{$item} = 0 unless defined $counts->{$item};
+	push @output, $counts->{$item};
+	$nerr += $counts->{$item} unless $item eq "REF";
+    }
+
+    my $norm = 100/max($counts->{REF},$epsilon);
+    foreach my $item ("DEL", "INS", "SUB") {
+	push @output, min(999.99,$norm*$counts->{$item});
+    }
+    my $dpi = $counts->{"DEL"}+$counts->{"INS"};
+    my $tot = $dpi+$counts->{"SUB"};
+    push @output, min(999.99,$norm*$dpi), min(999.99,$norm*$tot);
+    return @output;
+}
+
+#################################
+
+sub word_kinds {
+
+    my ($words, $kind) = @_;
+    my ($word, %count);
+
+    foreach $word (@$words) {
+	$count{$word->{$kind}}++;
+    }
+    return sort keys %count;
+}
+
+#################################
+
+sub standardize_word {
+
+    my ($word, $glm) = @_;
+    my (@split_word, @words, $tbeg, $tdur, $part, $new_word);
+
+    $word->{WORD} = lc $word->{WORD}; #lower case
+
+    if (defined $glm->{$word->{WORD}}) { #split glm words
+	@split_word = @{$glm->{$word->{WORD}}};
+    }
+    elsif ($word->{WORD} =~ /^([^-]+|mm-hmm|uh-huh|um-hmm)$/) {
+	return $word;
+    }
+    elsif ($word->{WORD} =~ /.+-.+/) { #split hyphenated words
+	$word->{WORD} =~ s/(?<=.)-(?=.)/ /g;
+	@split_word = split /\s+/, $word->{WORD};
+    }
+    else { #don't split word
+	return $word;
+    }
+
+#split word and prorate time equally to each part
+    $tbeg = $word->{TBEG};
+    $tdur = $word->{TDUR}/@split_word;
+    foreach $part (@split_word) {
+	$new_word = {FILE => $word->{FILE}, CHNL => $word->{CHNL}, TBEG => $tbeg,
+		     TDUR => $tdur, TEND => $tbeg+$tdur, TMID => $tbeg+$tdur/2,
+		     WORD => $part, CONF => $word->{CONF}, SPKR => $word->{SPKR},
+		     TYPE => $word->{TYPE}, SUBT => $word->{SUBT}, WTYP => $word->{WTYP}};
+	push @words, $new_word;
+	$tbeg += $tdur;
+    }
+    return @words;
+}
+
+#################################
+
+sub decide_who_spoke_the_words {
+
+    my ($ref_wds, $sys_wds) = @_;
+    my ($ref_index, $ref_word, $sys_index, $index, $word, $md_index, $md);
+    my ($sys_word, $spkr, $score, $best_spkr, $best_score, @speakers);
+
+#select the best ref word for each STT output word that has multiple reference word matches
+    for ($sys_index=0; $sys_index<@$sys_wds; $sys_index++) {
+	$sys_word = $sys_wds->[$sys_index];
+	next unless defined $sys_word->{SPKRS};
+	undef $best_score;
+	@speakers = sort keys %{$sys_word->{SPKRS}};
+	next unless @speakers > 1;
+	foreach $spkr (@speakers) {
+	    next unless defined $sys_word->{SPKRS}{$spkr};
+	    $ref_word = $sys_word->{SPKRS}{$spkr}{REFPTR};
+	    $score = $ref_word->{PATHS}{$sys_index}{SCORE};
+	    next if defined $best_score and $best_score > $score;
+	    $best_score = $score;
+	    $best_spkr = $spkr;
+	}
+	next unless defined $best_score;
+	foreach $spkr (@speakers) {
+	    next if $spkr eq $best_spkr;
+	    $sys_word->{SPKRS}{$spkr} = undef;
+	    $ref_word = $sys_word->{SPKRS}{$best_spkr}{REFPTR};
+	}
+    }
+}
+
+#################################
+
+sub event_covers_time {
+
+    my ($event, $time) = @_;
+
+    return ($time < $event->{TBEG} or
+	    $time > $event->{TEND}) ? 0 : 1;
+}
+
+#################################
+
+sub word_score {
+
+    my ($ref_word, $sys_word) = @_;
+    my ($tbeg, $tend, $rw, $sw, $score, $word);
+    my ($attribute, $attributes, $ref_attributes, $sys_attributes);
+
+#compute joint word coverage
+    $score = 0;
+    if (defined $ref_word and defined $sys_word) {
+	return undef unless overlap ($ref_word, $sys_word, $word_gap);
+	if (($ref_attributes = $ref_word->{ATTRIBUTES}) and
+	    ($sys_attributes = $sys_word->{ATTRIBUTES})) {
+	    foreach $attribute ("EDIT", "FILLER", "IP", "SU") {
+	        next unless (defined $ref_attributes->{$attribute} and
+			     defined $sys_attributes->{$attribute});
+		$score += ($ref_attributes->{$attribute} eq
+			   $sys_attributes->{$attribute}) ? 0.02 : 0.01;
+	    }
+	}
+	return $score if #both word type and word spelling match
+	    ((   $ref_word->{WORD} eq $sys_word->{WORD} and
+		 $ref_word->{WTYP} eq $sys_word->{WTYP})
+	     
+	     or ($ref_word->{WTYP} eq "lex" and 
+		 $sys_word->{WTYP} eq "frag" and
+		 ($sw = $sys_word->{WORD}, $sw =~ s/^-*|-*$//g, $sw) #make sure that $sw is non-null
+		 and ($ref_word->{WORD} =~ /$sw/))
+	     
+	     or ($ref_word->{WTYP} eq "frag" and 
+		 $sys_word->{WTYP} eq "lex" and
+		 ($rw = $ref_word->{WORD}, $rw =~ s/^-*|-*$//g, $rw) #make sure that $rw is non-null
+		 and ($sys_word->{WORD} =~ /$rw/))
+	     
+	     or ($ref_word->{WTYP} eq "fp" and 
+		 $sys_word->{WTYP} eq "fp")
+	     
+	     or ($ref_word->{WTYP} eq "frag" and 
+		 $sys_word->{WTYP} eq "frag"));
+	
+	return $score - 0.1*max(1,ref_count($ref_word)) if #word type match, except for lex's
+	    ((   $ref_word->{WTYP} eq $sys_word->{WTYP} and
+		 $ref_word->{WTYP} ne "lex"));
+	
+	return $score - max(1,ref_count($ref_word),ref_count($sys_word));
+    }
+    $word = defined $ref_word ? $ref_word : $sys_word;
+    return 0 unless defined $word;
+    $score = $word->{WTYP} eq "lex" ? -ref_count($word) : -0.2*max(1,ref_count($word));
+    $attributes = $word->{ATTRIBUTES};
+    if (defined $attributes) {
+	foreach $attribute ("EDIT", "FILLER", "IP", "SU") {
+	    $score += 0.005 if defined $word->{$attribute};
+	}
+    }
+    return $score;
+}
+
+#################################
+
+sub wd_err_count {
+
+    my ($ref_word, $sys_word) = @_;
+    
+    my $word_score = word_score($ref_word,$sys_word);
+    return (defined $word_score and $word_score > -0.5) ? 0 : 1;
+}
+
+#################################
+
+sub ref_count {
+
+    my ($word) = @_;
+
+    return 0 unless defined $word;
+    return 0 if $word->{WTYP} =~ /^(non-lex|misc)$/;
+
+#hyphenated words get a count of 2 (except for mm-hmm, uh-huh and hm-hmm)
+    my $WORD = $word->{WORD};
+    $WORD =~ s/^-*|-*$//g;
+    return $WORD =~ /^([^-]+|mm-hmm|uh-huh|um-hmm)$/ ? 1 : 2;
+}
+
+#################################
+
+sub overlap {
+
+    my ($ref, $sys, $tgap) = @_;
+    
+    return 0 unless $ref and $sys;
+    $tgap = 0 unless defined $tgap;
+    my $tovl = (min($ref->{TEND}, $sys->{TEND}) -
+		max($ref->{TBEG}, $sys->{TBEG})) + $tgap;
+    return $tovl > 0 ? $tovl/(1 + $tgap/max($ref->{TDUR},$epsilon)) : 0;
+}
+
+################################
+
+sub md_in_uem {
+
+    my ($md, $uem_eval) = @_;
+
+    return 1 unless defined $uem_eval; #not using UEM partition specification
+    foreach my $partition (@$uem_eval) {
+        return 1 if ($md->{TEND} <= $partition->{TEND}+$epsilon and
+		     $md->{TBEG} >= $partition->{TBEG}-$epsilon);
+    }
+    return 0;
+}
+
+#################################
+
+sub map_spkrdata_to_words {
+
+    my ($sys_mds, $sys_wds, $ref_mds, $ref_wds) = @_;
+    my ($spkr, $md, @ref_spkr_mds, @sys_spkr_mds);
+
+    foreach $spkr (keys %$ref_mds) {
+	foreach $md (@{$ref_mds->{$spkr}}) {
+	    push @ref_spkr_mds, $md;
+	}
+    }
+
+    foreach $spkr (keys %$sys_mds) {
+	foreach $md (@{$sys_mds->{$spkr}}) {
+	    push @sys_spkr_mds, $md;
+	}
+    }
+
+    map_metadata_to_words (\@sys_spkr_mds, $sys_wds, \@ref_spkr_mds, $ref_wds);
+}
+
+#################################
+
+sub map_metadata_to_words {
+
+    my ($sys_mds, $sys_wds, $ref_mds, $ref_wds) = @_;
+
+#map system output metadata times to ref words
+    foreach my $md (@$sys_mds) {
+	if ($opt_w) { #adjust times/words to agree with ref-sys word alignment
+	    $md->{RTBEG} = adjust_sys_time_to_ref ($md->{TBEG}, $sys_wds);
+	    $md->{RTEND} = adjust_sys_time_to_ref ($md->{TEND}, $sys_wds);
+	}
+	else { #map system output metadata event to reference data normally
+	    $md->{RTBEG} = $md->{TBEG};
+	    $md->{RTEND} = $md->{TEND};
+	}
+	$md->{RTDUR} = $md->{RTEND} - $md->{RTBEG};
+	$md->{RTMID} = $md->{RTBEG} + $md->{RTDUR}/2;
+	($md->{RWBEG}, $md->{RWEND}) = md_ref_word_indices ($md, $ref_wds);
+	$md->{RWDUR} = $md->{RWEND} - $md->{RWBEG} + 1;
+    }
+
+#map reference metadata times to ref words
+    foreach my $md (@$ref_mds) {
+	($md->{WBEG}, $md->{WEND}) = md_word_indices ($md, $ref_wds);
+	$md->{WDUR} = $md->{WEND} - $md->{WBEG} + 1;
+	next if ($md->{WDUR} > 0 or
+		 $md->{TYPE} =~ /^(IP|CB)$/);
+        next if (not $opt_W and not $opt_w and $md->{TYPE} eq "SPEAKER");
+	warn "\nWARNING:  reference metadata event subsumes no reference words\n"
+	    ."    file='$md->{FILE}', chnl='$md->{CHNL}', tbeg='$md->{TBEG}',"
+		." tend='$md->{TEND}', type='$md->{TYPE}', subtype='$md->{SUBT}'\n";
+    }
+
+#friendly (unused) check of system metadata times versus sys words
+    return unless $opt_w;
+    foreach my $md (@$sys_mds) {
+	(my $wbeg, my $wend) = md_word_indices ($md, $sys_wds);
+	next if ($wend - $wbeg >= 0 or
+		 $md->{TYPE} =~ /^(IP|CB)$/);
+	warn "\nWARNING:  system output metadata event subsumes no system output words\n"
+	    ."    file='$md->{FILE}', chnl='$md->{CHNL}', tbeg='$md->{TBEG}',"
+		." tend='$md->{TEND}', type='$md->{TYPE}', subtype='$md->{SUBT}'\n";
+    }
+}
+
+#################################
+
+sub adjust_sys_time_to_ref {
+
+    my ($ts, $sys_wds) = @_;
+    my ($ts1, $ts2, $tr, $tr1, $tr2, $ws1, $ws2, $ref_wd);
+
+#given a time in the system output, find the time in the reference
+#that harmonizes with the alignment of system output words
+
+#find the nearest right reference anchor point
+    $ws2 = 0;
+    $ws2++ while ($ws2 < @$sys_wds and
+		  ($sys_wds->[$ws2]{TEND} < $ts or
+		   not defined $sys_wds->[$ws2]{MAPPTR}));
+    if ($ws2 < @$sys_wds) {
+	$ref_wd = $sys_wds->[$ws2]{MAPPTR};
+	($ts2, $tr2) = $sys_wds->[$ws2]{TBEG} < $ts ?
+	    ($sys_wds->[$ws2]{TEND}, $ref_wd->{TEND}) :
+	    ($sys_wds->[$ws2]{TBEG}, $ref_wd->{TBEG});
+    }
+
+#find the nearest left reference anchor point
+    $ws1 = min($ws2, @$sys_wds-1);
+    $ws1-- while ($ws1 >= 0 and 
+		  ($sys_wds->[$ws1]{TBEG} > $ts or
+		   not defined $sys_wds->[$ws1]{MAPPTR}));
+    if ($ws1 >= 0) {
+	$ref_wd = $sys_wds->[$ws1]{MAPPTR};
+	($ts1, $tr1) = $sys_wds->[$ws1]{TEND} > $ts ? 
+	    ($sys_wds->[$ws1]{TBEG}, $ref_wd->{TBEG}) :
+	    ($sys_wds->[$ws1]{TEND}, $ref_wd->{TEND});
+    }
+
+#make adjustment
+    $tr = (($ws1 < 0 and $ws2 >= @$sys_wds) ? $ts               : #no adjustment possible
+	   ($ws1 < 0)                       ? $tr2 + ($ts-$ts2) : #extrapolate left without scale change
+	   ($ws2 >= @$sys_wds)              ? $tr1 + ($ts-$ts1) : #extrapolate right without scale change
+	   ($ts == $ts1)                    ? $tr1              : #no interpolation necessary
+	   $tr1 + ($ts-$ts1)*($tr2-$tr1)/($ts2-$ts1));            #normal interpolation
+    return $tr;
+}
+
+#################################
+
+sub md_word_indices {
+
+    my ($md, $wds) = @_;
+
+#find the word indices of the first and last words with midpoints inside the metadata event
+    my $i = 0;
+    $i++ while ($i<@$wds and ($wds->[$i]{TMID}) < $md->{TBEG});
+    my $j = max($i-1,0);
+    $j++ while ($j<@$wds and ($wds->[$j]{TMID}) <= $md->{TEND});
+    return ($i, --$j);
+}
+
+#################################
+
+sub md_ref_word_indices {
+
+    my ($md, $wds) = @_;
+
+#find the word indices of the first and last words with midpoints inside the metadata event
+    my $i = 0;
+    $i++ while ($i<@$wds and ($wds->[$i]{TMID}) < $md->{RTBEG});
+    my $j = max($i-1,0);
+    $j++ while ($j<@$wds and ($wds->[$j]{TMID}) <= $md->{RTEND});
+    return ($i, --$j);
+}
+
+#################################
+
+sub align_data {
+
+    my ($refs, $syss, $spkr, $scorer, $max_delta_score) = @_;
+    my ($ref, $sys, $prev_ref, $path, $ref_path);
+    my ($ref_index, $sys_index, $index, $pruning_threshold);
+    my ($score, $path_score, $best_score, %cum_insertion_score);
+
+#compute cumulative insertion score for sys output
+    $cum_insertion_score{-1} = 0;
+    for ($sys_index=0; $sys_index<@$syss; $sys_index++) {
+	$sys = $syss->[$sys_index];
+	$cum_insertion_score{$sys_index} = $cum_insertion_score{$sys_index-1};
+	$cum_insertion_score{$sys_index} += &$scorer (undef, $sys);
+    }
+
+#find the best path by incremental optimization through the ref transcription
+    $prev_ref->{PATHS}{-1}{SCORE} = 0;
+    for ($ref_index=0; $ref_index<@$refs; $ref_index++) {
+	$ref = $refs->[$ref_index];
+	next if $spkr and $ref->{SPKR} ne $spkr;
+
+#find best score and compute pruning threshold
+	$best_score = undef;
+	foreach $index (keys %{$prev_ref->{PATHS}}) {
+	    $path_score = $prev_ref->{PATHS}{$index}{SCORE} +
+		$cum_insertion_score{@$syss-1}-$cum_insertion_score{$index};
+	    $best_score = $path_score if not defined $best_score or $best_score < $path_score;
+	}
+	$pruning_threshold = $best_score - $max_delta_score;
+	
+#extend paths with scores above pruning threshold
+	foreach $index (keys %{$prev_ref->{PATHS}}) {
+	    $path_score = $prev_ref->{PATHS}{$index}{SCORE} +
+		$cum_insertion_score{@$syss-1}-$cum_insertion_score{$index};
+	    next unless $path_score > $pruning_threshold;
+	    $ref->{PATHS}{$index}{PATHPTR} = $index;
+	    $ref->{PATHS}{$index}{PREVREF} = $prev_ref;
+	    $ref->{PATHS}{$index}{SCORE} = $prev_ref->{PATHS}{$index}{SCORE} +
+		&$scorer ($ref, undef);
+	}
+
+#compare the current ref event to all sys events
+	for ($sys_index=0; $sys_index<@$syss; $sys_index++) {
+	    $sys = $syss->[$sys_index];
+	    $score = &$scorer ($ref, $sys);
+	    next unless defined $score;
+
+#update each path for this {ref, sys} match
+	    foreach $index (sort {$a<=>$b} keys %{$prev_ref->{PATHS}}) {
+		next unless $index < $sys_index;
+		$path_score = $score + $prev_ref->{PATHS}{$index}{SCORE} +
+		    $cum_insertion_score{$sys_index-1}-$cum_insertion_score{$index};
+		if (not defined $ref->{PATHS}{$sys_index}
+		    or $path_score > $ref->{PATHS}{$sys_index}{SCORE}) {
+		    $ref->{PATHS}{$sys_index}{SCORE} = $path_score;
+		    $ref->{PATHS}{$sys_index}{PREVREF} = $prev_ref;
+		    $ref->{PATHS}{$sys_index}{PATHPTR} = $index;
+		    $ref->{PATHS}{$sys_index}{SYSPTR} = $sys;
+		}
+	    }
+	}
+	$prev_ref=$ref;
+    }
+
+#add insertion score for remaining unmapped sys events
+    foreach $index (sort {$a<=>$b} keys %{$prev_ref->{PATHS}}) {
+	$prev_ref->{PATHS}{$index}{SCORE} +=
+	    $cum_insertion_score{@$syss-1}-$cum_insertion_score{$index} if $index < @$syss-1;
+    }
+}
+
+#################################
+
+sub md_score {
+
+    my ($ref_md, $sys_md) = @_;
+    my ($beg, $end, $overlap, $ref_beg, $sys_beg, $md_dur);
+    my $subtype_bonus = 1.1; #multiplicative bonus for matching subtypes
+    my $endword_bonus = 1.001; #multiplicative bonus for matching boundaries
+
+    return 0 unless defined $ref_md and defined $sys_md;
+
+    if ($opt_W) { #compute md mapping score as ref-sys overlap in (ref) words
+	$ref_beg = $ref_md->{WBEG};
+	$sys_beg = $sys_md->{RWBEG};
+	if ($ref_md->{TYPE} eq "SU") {
+	    $ref_beg = max($ref_beg, $ref_md->{WEND}-($su_extent_limit-1));
+	    $sys_beg = max($sys_beg, $sys_md->{RWEND}-($su_extent_limit-1));
+	}
+	$beg = max($ref_beg, $sys_beg);
+	$end = min($ref_md->{WEND}, $sys_md->{RWEND});
+	$overlap = $end - $beg + 1;
+	$md_dur = $ref_md->{WEND} - $ref_beg + 1;
+    }
+    else { #compute md mapping score as ref-sys overlap in time
+	$ref_beg = $ref_md->{TBEG};
+	$sys_beg = $sys_md->{RTBEG};
+	if ($ref_md->{TYPE} eq "SU") {
+	    $ref_beg = max($ref_beg, $ref_md->{TEND}-$su_extent_limit);
+	    $sys_beg = max($sys_beg, $sys_md->{RTEND}-$su_extent_limit);
+	}
+	$beg = max($ref_beg, $sys_beg);
+	$end = min($ref_md->{TEND}, $sys_md->{RTEND});
+	$overlap = $end - $beg;
+	$md_dur = $ref_md->{TEND} - $ref_beg;
+    }
+    $overlap += $epsilon if $ref_md->{TYPE} =~ /^(IP|CB)$/;
+    $overlap += $md_gap;
+    return undef if $overlap < 0;
+    $overlap *= $subtype_bonus if $ref_md->{SUBT} eq $sys_md->{SUBT};
+    $overlap *= $endword_bonus if $ref_md->{WEND} eq $sys_md->{RWEND};
+    return $overlap if $md_dur+$md_gap < max($md_dur,$epsilon);
+    return $overlap * max($md_dur,$epsilon)/($md_dur+$md_gap);
+}
+
+#################################
+
+sub trace_best_path {
+
+    my ($refs, $syss, $spkr) = @_;
+    my ($ref, $path, $pathptr, $best_score, $prev_ref, $ref_index, $index, $sys);
+
+#find the last word for the selected channel and speaker
+    return unless @$refs and @$syss;
+    $ref_index = @$refs-1;
+    $ref_index-- while (defined $spkr and $refs->[$ref_index]{SPKR} ne $spkr);
+    $spkr = "ALL" unless defined $spkr;
+
+#identify the best path for the selected ending word
+    $ref = $refs->[$ref_index];
+    undef $best_score;
+    foreach $index (sort {$a<=>$b} keys %{$ref->{PATHS}}) {
+	$path = $ref->{PATHS}{$index};
+	if (not defined $best_score or $path->{SCORE} > $best_score) {
+	    $best_score = $path->{SCORE};
+	    $pathptr = $path->{PATHPTR};
+	    $prev_ref = $path->{PREVREF};
+	    $sys = $path->{SYSPTR};
+	}
+    }
+    if (defined $sys) {
+	$sys->{SPKRS}{$spkr}{REFPTR} = $ref;
+	$sys->{MAPPTR} = $ref;
+	$ref->{MAPPTR} = $sys;
+    }
+
+#trace the path back 
+    while ($pathptr != -1) {
+	$ref = $prev_ref;
+	$path = $ref->{PATHS}{$pathptr};
+	$pathptr = $path->{PATHPTR};
+	$prev_ref = $path->{PREVREF};
+	next unless defined $path->{SYSPTR};
+	$sys = $path->{SYSPTR};
+	$sys->{SPKRS}{$spkr}{REFPTR} = $ref;
+	$sys->{MAPPTR} = $ref;
+	$ref->{MAPPTR} = $sys;
+    }
+}
+
+#################################
+
+sub delta_metadata_error_words {
+
+#accumulates the number of metadata error words difference
+#between ref beg/end point of metadata event and sys beg/end point of metadata event
+
+    my ($location, $ref_index, $sys_index, $ref_wds) = @_;
+
+    my $dw = 0;
+    my $index = min($ref_index,$sys_index);
+    my $istop = max($ref_index,$sys_index);
+    while ($index != $istop) {
+	$index++ if $location eq "END";
+	$dw++ if $index >= 0 and $index < @$ref_wds and $ref_wds->[$index]{SCOREABLE};
+	$index++ if $location eq "BEG";
+    }
+    return $sys_index > $ref_index ? $dw : 0-$dw;
+}
+
+#################################
+
+sub print_path_score {
+
+    my ($ref, $sys, $ref_count, $err_count, $err_type) = @_;
+
+#print header
+    unless (defined $ref or defined $sys) {
+	printf " ref del ins sub %16.16s %-7s%8s%8s %-12.12s", "REF:  token", "type",
+	    "tbeg", "tend", "speaker";
+	printf " %16.16s %-7s  %7s%8s %8s%8s %-12.12s\n", "SYS:  token", "type",
+	    "Rtbeg", "Rtend", "tbeg", "tend", "sys-speaker" if $opt_w;
+	printf " %16.16s %-7s%8s%8s %-12.12s\n", "SYS:  token", "type",
+	    "tbeg", "tend", "speaker" unless $opt_w;
+	return;
+    }
+
+#print ref
+    my %errors = (REF=>"-", DEL=>"-", INS=>"-", SUB=>"-");
+    $errors{REF} = $ref_count if defined $ref_count;
+    $errors{$err_type} = $err_count if defined $err_type;
+    printf "%4s%4s%4s%4s", $errors{REF}, $errors{DEL}, $errors{INS}, $errors{SUB};
+
+    if (defined $ref) {
+	printf " %16.16s %-7s%8.2f%8.2f %-12.12s", $ref->{TYPE} =~ /^(LEXEME|NON-LEX|NON-SPEECH)$/ ?
+	    ($ref->{WORD}, $ref->{WTYP}) : ($ref->{SUBT}, $ref->{TYPE}), $ref->{TBEG}, $ref->{TEND}, $ref->{SPKR};
+    }
+    else {
+	printf " %16.16s %-7s%8s%8s %-12.12s", "---", "---", "--- ", "--- ", "---";
+    }
+
+#print sys
+    if ($opt_w) {
+	if (defined $sys) {
+	    printf " %16.16s %-7s (%7.2f%8.2f)%8.2f%8.2f %-12.12s\n", $sys->{TYPE} =~ /^(LEXEME|NON-LEX|NON-SPEECH)$/ ?
+		($sys->{WORD}, $sys->{WTYP}) : ($sys->{SUBT}, $sys->{TYPE}), $sys->{RTBEG}, $sys->{RTEND}, $sys->{TBEG}, $sys->{TEND}, $sys->{SPKR};
+	}
+	else {
+	    printf " %16.16s %-7s (%7s%8s)%8s%8s %-12.12s\n", "---", "---", "--- ", "--- ", "--- ", "--- ", "---";
+	}
+    }
+    else {
+	if (defined $sys) {
+	    printf " %16.16s %-7s%8.2f%8.2f %-12.12s\n", $sys->{TYPE} =~ /^(LEXEME|NON-LEX|NON-SPEECH)$/ ?
+		($sys->{WORD}, $sys->{WTYP}) : ($sys->{SUBT}, $sys->{TYPE}), $sys->{TBEG}, $sys->{TEND}, $sys->{SPKR};
+	}
+	else {
+	    printf " %16.16s %-7s%8s%8s %-12.12s\n", "---", "---", "--- ", "--- ", "---";
+	}
+    }	
+}
+
+#################################
+
+sub score_metadata_path {
+
+    my ($type, $file, $chnl, $ref_mds, $sys_mds, $ref_wds) = @_;
+    my ($ref_md, @sys_mds, $sys_index, $sys_md, $md, $spkr, $iw);
+    my (%count, $ref_count, $err_count, $ref_wd, $dw);
+
+    print "\n$type alignment and scoring details for channel $chnl of file $file\n" if $opt_D;
+    print_path_score () if $opt_D;
+
+#tabulate boundary/depod errors
+    tag_ref_words_with_metadata_info ($ref_mds, $ref_wds, "REF");
+    tag_ref_words_with_metadata_info ($sys_mds, $ref_wds, "SYS");
+    for ($iw=0; $iw<@$ref_wds; $iw++) {
+	$ref_wd = $ref_wds->[$iw];
+	next unless $ref_wd->{SCOREABLE} or $type =~ /^(IP|SU)$/;
+	my $nref = my $nsys = my $nins = my $ncor = 0;
+	foreach my $subtype (keys %{$md_subtypes{$type}}) {
+	    my $nr = $ref_wd->{"REF-$type"}{$subtype}{MAP};
+	    my $nm = $ref_wd->{"REF-$type"}{$subtype}{NOT};
+	    my $ns = $ref_wd->{"SYS-$type"}{$subtype}{MAP};
+	    my $ni = $ref_wd->{"SYS-$type"}{$subtype}{NOT};
+	    $nref += $nr if $nr;
+	    $nref += $nm if $nm;
+	    $nsys += $ns if $ns;
+	    $nins += $ni if $ni;
+	    $ncor += min($nr,$ns) if $nr and $ns;
+	}
+	$count{WORDS}{REF} += $nref;
+	$count{WORDS}{DEL} += max($nref-$nsys,0);
+	$count{WORDS}{INS} += max($nsys-$nref,0) + ($nins ? $nins : 0);
+	$count{WORDS}{SUB} += min($nref,$nsys) - $ncor;
+    }
+
+#tabulate beg/end word offset errors
+    foreach $ref_md (@$ref_mds) {
+	next unless ($sys_md = $ref_md->{MAPPTR});
+	$dw = delta_metadata_error_words ("BEG", $ref_md->{WBEG}, $sys_md->{RWBEG}, $ref_wds);
+	$count{WORD_OFFSET}{WBEG}{$dw}++;
+	$dw = delta_metadata_error_words ("END", $ref_md->{WEND}, $sys_md->{RWEND}, $ref_wds);
+	$count{WORD_OFFSET}{WEND}{$dw}++;
+    }
+
+#tabulate detection errors
+    @sys_mds = @$sys_mds;
+    $sys_md = shift @sys_mds;
+    foreach $ref_md (@$ref_mds) {
+	$spkr = $ref_md->{SPKR};
+	$ref_count = md_err_count ($ref_md, undef);
+	$count{REF}{$spkr}{$ref_md->{SUBT}} += $ref_count if defined $ref_count;
+	if ($ref_md->{MAPPTR}) {
+	    while ($sys_md and
+		   $sys_md ne $ref_md->{MAPPTR}) {
+		printf "%sUNEXPECTED MAPPED SYS MD:  %16s %-7s%8.2f%8.2f %-16s\n",
+		    " "x44, $sys_md->{SUBT}, $sys_md->{TYPE}, $sys_md->{TBEG},
+		    $sys_md->{TEND}, $sys_md->{SPKR} if $sys_md->{MAPPTR};
+		$err_count = md_err_count (undef, $sys_md);
+		$count{INS}{ref_spkr_of_md($sys_md,$ref_wds)}{$sys_md->{SUBT}} += $err_count;
+		print_path_score (undef, $sys_md, 0, $err_count, "INS") if $opt_D;
+		$sys_md = shift @sys_mds;
+	    }
+	    if ($sys_md) {
+		$err_count = md_err_count ($ref_md, $sys_md);
+		$count{SUB}{$spkr}{$ref_md->{SUBT}} += $err_count;
+		$count{CONFUSION}{$spkr}{$ref_md->{SUBT}}{$sys_md->{SUBT}} += $ref_count;
+		print_path_score ($ref_md, $sys_md, $ref_count, $err_count, "SUB") if $opt_D;
+		$sys_md = shift @sys_mds;
+	    }
+	    else {
+		printf "%sSYS MD NOT FOUND FOR REF MD:   %16s %-7s%8.2f%8.2f %-16s\n",
+		    " "x40, $ref_md->{SUBT}, $ref_md->{TYPE}, $ref_md->{TBEG},
+		    $ref_md->{TEND}, $ref_md->{SPKR} if $ref_md->{MAPPTR};
+	    }
+	}
+	else {
+	    $err_count = md_err_count ($ref_md, undef);
+	    $count{DEL}{$spkr}{$ref_md->{SUBT}} += $err_count;
+	    print_path_score ($ref_md, undef, $ref_count, $err_count, "DEL") if $opt_D;
+	}
+    }
+    while ($sys_md) {
+	printf "%sUNEXPECTED MAPPED SYS MD:  %16s %-7s%8.2f%8.2f %-16s\n",
+	    " "x44, $sys_md->{SUBT}, $sys_md->{TYPE}, $sys_md->{TBEG},
+	    $sys_md->{TEND}, $sys_md->{SPKR} if $sys_md->{MAPPTR};
+	$err_count = md_err_count (undef, $sys_md);
+	$count{INS}{ref_spkr_of_md($sys_md,$ref_wds)}{$sys_md->{SUBT}} += $err_count;
+	print_path_score (undef, $sys_md, 0, $err_count, "INS") if $opt_D;
+	$sys_md = shift @sys_mds;
+    }
+    return {%count};
+}
+
+#################################
+
+sub md_err_count {
+
+    my ($ref_md, $sys_md) = @_;
+
+    return 1 if (not defined $sys_md         or not defined $ref_md         or
+		 not defined $sys_md->{TYPE} or not defined $ref_md->{TYPE} or
+		 not defined $sys_md->{SUBT} or not defined $ref_md->{SUBT} or
+		 $sys_md->{TYPE} ne $ref_md->{TYPE} or
+		 $sys_md->{SUBT} ne $ref_md->{SUBT});
+    return 0;
+}
+
+#################################
+
+sub ref_spkr_of_md {
+
+    my ($md, $ref_wds) = @_;
+    my $spkr;
+
+    for (my $index =min($md->{RWBEG},$md->{RWEND});
+	    $index<=max($md->{RWBEG},$md->{RWEND}); $index++) {
+	next unless $index >= 0 and $index < @$ref_wds;
+	$spkr = $ref_wds->[$index]{SPKR} unless $spkr;
+	return "unknown" unless $ref_wds->[$index]{SPKR} eq $spkr;
+    }
+    return defined $spkr ? $spkr : "unknown";
+}
+
+#################################
+
+sub score_word_path {
+
+    my ($file, $chnl, $ref_wds, $sys_wds) = @_;
+    my ($ref_wrd, @sys_wds, $sys_wrd);
+    my ($ref_count, $err_count);
+
+    print "\nWord alignment and scoring details for channel $chnl of file $file\n";
+    print_path_score ();
+
+#tabulate errors
+    @sys_wds = @$sys_wds;
+    $sys_wrd = shift @sys_wds;
+    foreach $ref_wrd (@$ref_wds) {
+	$ref_count = ref_count($ref_wrd);
+	if ($ref_wrd->{MAPPTR}) {
+	    while ($sys_wrd and
+		   $sys_wrd ne $ref_wrd->{MAPPTR}) {
+		printf "%71s%16s %-7s%s%8.2f%8.2f %-16s\n", "UNEXPECTED MAPPED SYS WORD:",
+		    $sys_wrd->{WORD}, $sys_wrd->{WTYP}, " "x18, $sys_wrd->{TBEG},
+		    $sys_wrd->{TDUR}, $sys_wrd->{SPKR} if $sys_wrd->{MAPPTR};
+		$err_count = wd_err_count(undef, $sys_wrd);
+		print_path_score (undef, $sys_wrd, 0, $err_count, "INS");
+		$sys_wrd = shift @sys_wds;
+	    }
+	    if ($sys_wrd) {
+		$err_count = wd_err_count($ref_wrd, $sys_wrd);
+		print_path_score ($ref_wrd, $sys_wrd, $ref_count, $err_count, "SUB");
+		$sys_wrd = shift @sys_wds;
+	    }
+	    else {
+		printf "%71s%16s %-7s%s%8.2f%8.2f %-16s\n", "SYS WRD NOT FOUND FOR REF WRD:",
+		    $ref_wrd->{WORD}, $ref_wrd->{WTYP}, " "x18, $ref_wrd->{TBEG},
+		    $ref_wrd->{TDUR}, $ref_wrd->{SPKR} if $ref_wrd->{MAPPTR};
+	    }
+	}
+	else {
+	    $err_count = wd_err_count($ref_wrd, undef);
+	    print_path_score ($ref_wrd, undef, $ref_count, $err_count, "DEL");
+	}
+    }
+    while ($sys_wrd) {
+	printf "%71s%16s %-7s%8.2f%8.2f %-16s\n", "UNEXPECTED MAPPED SYS WORD:",
+	    $sys_wrd->{WORD}, $sys_wrd->{WTYP}, $sys_wrd->{TBEG},
+	    $sys_wrd->{TDUR}, $sys_wrd->{SPKR} if $sys_wrd->{MAPPTR};
+	$err_count = wd_err_count(undef, $sys_wrd);
+	print_path_score (undef, $sys_wrd, 0, $err_count, "INS");
+	$sys_wrd = shift @sys_wds;
+    }
+}
+
+#################################
+
+sub date_time_stamp {
+
+    my ($sec, $min, $hour, $mday, $mon, $year, $wday, $yday, $isdst) = localtime();
+    my @months = qw(Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec);
+    my ($date, $time);
+
+    $time = sprintf "%2.2d:%2.2d:%2.2d", $hour, $min, $sec;
+    $date = sprintf "%4.4s %3.3s %s", 1900+$year, $months[$mon], $mday;
+    return ($date, $time);
+}
+
+#################################
+
+sub max {
+
+    my ($max, $next);
+
+    return unless defined ($max=pop);
+    while (defined ($next=pop)) {
+	$max = $next if $next > $max;
+    }
+    return $max;
+}
+
+#################################
+
+sub min {
+
+    my ($min, $next);
+
+    return unless defined ($min=pop);
+    while (defined ($next=pop)) {
+	$min = $next if $next < $min;
+    }
+    return $min;
+}
+
+#################################
+
+sub score_speaker_diarization {
+
+    my ($file, $chnl, $ref_spkr_data, $sys_spkr_data, $ref_wds, $uem_eval, $rttm_data) = @_;
+    my ($uem_score, $ref_eval, $sys_eval, $spkr_overlap, $spkr_map);
+    my ($eval_segs, $score_segs, %stats, @ref_wds, $wrd, $ref_spkr, $sys_spkr);
+    my ($nref, $nsys, $nmap, $spkr, $seg, $type, $spkr_info, $noscore_nl);
+
+    $stats{EVAL_WORDS} = $stats{SCORED_WORDS} =	$stats{MISSED_WORDS} = $stats{ERROR_WORDS} = $epsilon;
+    @ref_wds = @$ref_wds;
+    $wrd = shift @ref_wds;
+    foreach $seg (@$uem_eval) {
+	$stats{EVAL_TIME} += $seg->{TEND}-$seg->{TBEG};
+	$wrd = shift @ref_wds while ($wrd and $wrd->{TMID} < $seg->{TBEG});
+	while ($wrd and $wrd->{TMID} <= $seg->{TEND}) {
+	    $stats{EVAL_WORDS}++;
+	    $wrd = shift @ref_wds;
+	}
+    }
+
+    $eval_segs = create_speaker_segs ($uem_eval, $ref_spkr_data, $sys_spkr_data);
+    foreach $seg (@$eval_segs) {
+	foreach $ref_spkr (keys %{$seg->{REF}}) {
+	    $spkr_info->{REF}{$ref_spkr}{TIME} += $seg->{TDUR};
+	    $spkr_info->{REF}{$ref_spkr}{TYPE} = $ref_spkr_data->{$ref_spkr}[0]{SUBT};
+	}
+	foreach $sys_spkr (keys %{$seg->{SYS}}) {
+	    $spkr_info->{SYS}{$sys_spkr}{TIME} += $seg->{TDUR};
+	    $spkr_info->{SYS}{$sys_spkr}{TYPE} = $sys_spkr_data->{$sys_spkr}[0]{SUBT};
+	}
+	next unless keys %{$seg->{REF}} > 0;
+	$stats{EVAL_SPEECH} += $seg->{TDUR};
+	foreach $ref_spkr (keys %{$seg->{REF}}) {
+	    foreach $sys_spkr (keys %{$seg->{SYS}}) {
+		$spkr_overlap->{$ref_spkr}{$sys_spkr} += $seg->{TDUR};
+	    }
+	}
+    }
+    $speaker_map{$file}{$chnl} = $spkr_map = map_speakers ($spkr_overlap)
+	if defined $spkr_overlap;
+    print_speaker_map ($spkr_map, $spkr_overlap) if $opt_m;
+    update_speaker_map_file ($spkr_map, $spkr_overlap, $file, $chnl, $opt_M) if $opt_M;
+
+    $uem_score = $collar > 0 ? add_collars_to_uem ($uem_eval, $ref_spkr_data) : $uem_eval;
+    $uem_score = add_exclusion_zones_to_uem ($noscore_sd, $uem_score, $rttm_data);
+    $noscore_nl->{"NON-LEX"} = $noscore_sd->{"NON-LEX"};
+    $uem_score = add_exclusion_zones_to_uem ($noscore_nl, $uem_score, $rttm_data, $max_extend);
+    $uem_score = exclude_overlapping_speech_from_uem ($uem_score, $rttm_data) if $opt_1;
+    tag_scoreable_words ($ref_wds, $uem_score);
+    $score_segs = create_speaker_segs ($uem_score, $ref_spkr_data, $sys_spkr_data);
+    print_speaker_segs ($score_segs, $file, $chnl) if $opt_v;
+    ($stats{TYPE}{NSPK}) = speaker_mapping_scores ($spkr_map, $spkr_info);
+    score_speaker_segments (\%stats, $score_segs, $ref_wds, $spkr_map, $spkr_info);
+    return {%stats};
+}
+
+#################################
+
+sub speaker_mapping_scores {
+
+    my ($spkr_map, $spkr_info) = @_;
+    my ($ref_spkr, $ref_type, $sys_spkr, $sys_type, %imap, %stats);
+
+    foreach $ref_spkr (keys %{$spkr_info->{REF}}) {
+	next unless $spkr_info->{REF}{$ref_spkr}{TIME};
+	$ref_type = $spkr_info->{REF}{$ref_spkr}{TYPE};
+	$stats{REF}{$ref_type}++;
+	$sys_spkr = $spkr_map->{$ref_spkr};
+	$sys_type = defined $sys_spkr ? $spkr_info->{SYS}{$sys_spkr}{TYPE} : $miss_name;
+	$stats{JOINT}{$ref_type}{$sys_type}++;
+	$imap{$sys_spkr} = $ref_spkr if defined $sys_spkr;
+    }
+    foreach $sys_spkr (keys %{$spkr_info->{SYS}}) {
+	next unless $spkr_info->{SYS}{$sys_spkr}{TIME};
+	$sys_type = $spkr_info->{SYS}{$sys_spkr}{TYPE};
+	$stats{SYS}{$sys_type}++;
+	$stats{JOINT}{$fa_name}{$sys_type}++
+	    unless defined $imap{$sys_spkr};
+    }
+    return {%stats};
+}
+
+#################################
+
+sub score_speaker_segments {
+
+    my ($stats, $score_segs, $ref_wds, $spkr_map, $spkr_info) = @_;
+    my ($ref_spkr, $ref_type, $sys_spkr, $sys_type, %type_stats);
+    my (@ref_wds, $wrd, $seg, $seg_dur, $nref, $nsys);
+
+    @ref_wds = @$ref_wds;
+    $wrd = shift @ref_wds;
+    foreach $seg (@$score_segs) {
+	$seg_dur = $seg->{TDUR};
+	$stats->{SCORED_TIME} += $seg_dur;
+	$nref = keys %{$seg->{REF}};
+	$nsys = keys %{$seg->{SYS}};
+	$stats->{SCORED_SPEECH} += $nref ? $seg_dur : 0;
+	$stats->{MISSED_SPEECH} += ($nref and not $nsys) ? $seg_dur : 0;
+	$stats->{FALARM_SPEECH} += ($nsys and not $nref) ? $seg_dur : 0;
+	$stats->{SCORED_SPEAKER} += $seg_dur*$nref;
+	$stats->{MISSED_SPEAKER} += $seg_dur*max($nref-$nsys,0);
+	$stats->{FALARM_SPEAKER} += $seg_dur*max($nsys-$nref,0);
+
+	my $scored_wrds = my $missed_wrds = my $error_wrds = 0;
+	$wrd = shift @ref_wds while ($wrd and $wrd->{TMID} < $seg->{TBEG});
+	while ($wrd and $wrd->{TMID} <= $seg->{TEND}) {
+	    next unless $wrd->{SCOREABLE};
+	    $scored_wrds++;
+	    $missed_wrds++ if not $nsys;
+	    $error_wrds++ unless speakers_match ($seg->{REF}, $seg->{SYS}, $spkr_map);
+	    $wrd = shift @ref_wds;
+	}
+	$stats->{SCORED_WORDS} += $scored_wrds;
+	$stats->{MISSED_WORDS} += $missed_wrds;
+	$stats->{ERROR_WORDS} += $error_wrds;
+
+	my $nmap = 0, my %num_types;
+	foreach $ref_spkr (keys %{$seg->{REF}}) {
+	    $ref_type = $spkr_info->{REF}{$ref_spkr}{TYPE};
+	    $num_types{REF}{$ref_type}++;
+	    $sys_spkr = $spkr_map->{$ref_spkr};
+	    $nmap++ if defined $sys_spkr and defined $seg->{SYS}{$sys_spkr};
+	}
+	$stats->{SPEAKER_ERROR} += $seg_dur*(min($nref,$nsys) - $nmap);
+
+	foreach $sys_spkr (keys %{$seg->{SYS}}) {
+	    $sys_type = $spkr_info->{SYS}{$sys_spkr}{TYPE};
+	    $num_types{SYS}{$sys_type}++;
+	}
+	foreach $ref_type (keys %{$num_types{REF}}) {
+	    $nref = $num_types{REF}{$ref_type};
+	    $type_stats{REF}{$ref_type} += $nref*$seg_dur;
+	    foreach $sys_type (keys %{$num_types{SYS}}) {
+		$nsys = $num_types{SYS}{$sys_type};
+		$type_stats{JOINT}{$ref_type}{$sys_type} += min($nref,$nsys)*$seg_dur;
+	    }
+	    $type_stats{JOINT}{$ref_type}{$miss_name} += max($nref-$nsys,0)*$seg_dur;
+	}
+	foreach $sys_type (keys %{$num_types{SYS}}) {
+	    $nsys = $num_types{SYS}{$sys_type};
+	    $type_stats{SYS}{$sys_type} += $nsys*$seg_dur;
+	    $type_stats{JOINT}{$fa_name}{$sys_type} += max($nsys-$nref,0)*$seg_dur;
+	}
+    }
+    $stats->{TYPE}{TIME} = {%type_stats};
+}
+
+#################################
+
+sub speakers_match {
+
+    my ($ref_spkrs, $sys_spkrs, $spkr_map) = @_;
+
+    return 0 unless keys %$ref_spkrs == keys %$sys_spkrs;
+    foreach my $ref_spkr (keys %$ref_spkrs) {
+	return 0 unless (defined $spkr_map->{$ref_spkr} and
+			 defined $sys_spkrs->{$spkr_map->{$ref_spkr}});
+    }
+    return 1;
+}
+
+#################################
+
+sub add_collars_to_uem {
+
+    my ($uem_eval, $ref_data) = @_;
+    my (@events, $event, $uem, $uem_score, $spkr, $spkr_seg, $tbeg, $evaluate);
+
+    foreach $uem (@$uem_eval) {
+	push @events, {EVENT => "BEG", TIME => $uem->{TBEG}};
+	push @events, {EVENT => "END", TIME => $uem->{TEND}};
+    }
+#add no-score collars
+    foreach $spkr (keys %$ref_data) {
+	foreach $spkr_seg (@{$ref_data->{$spkr}}) {
+	    push @events, {EVENT => "END", TIME => $spkr_seg->{TBEG}-$collar};
+	    push @events, {EVENT => "BEG", TIME => $spkr_seg->{TBEG}+$collar};
+	    push @events, {EVENT => "END", TIME => $spkr_seg->{TEND}-$collar};
+	    push @events, {EVENT => "BEG", TIME => $spkr_seg->{TEND}+$collar};
+	}
+    }
+    @events = sort {($a->{TIME} < $b->{TIME} ? -1 :
+		     ($a->{TIME} > $b->{TIME} ? 1 :
+		      $a->{EVENT} eq "END"))} @events;
+    $evaluate = 0;
+    foreach $event (@events) {
+	if ($event->{EVENT} eq "BEG") {
+	    $evaluate++;
+	    $tbeg = $event->{TIME} if $evaluate == 1;
+	}
+	else {
+	    $evaluate--;
+	    push @$uem_score, {TBEG => $tbeg, TEND => $event->{TIME}}
+	        if $evaluate == 0 and $event->{TIME} > $tbeg;
+	}
+    }
+    return $uem_score;
+}
+
+#################################
+
+sub exclude_overlapping_speech_from_uem {
+
+    my ($uem_data, $rttm_data) = @_;
+    my ($token, @spkr_events, $event, $spkr_cnt, $tbeg_overlap, $uem, @events, $uem_ex);
+
+#overlapping speech computed from SPEAKER data
+    foreach $token (@$rttm_data) {
+	next unless ($token->{TYPE} eq "SPEAKER" and
+		     $token->{TDUR} > 0);
+	push @spkr_events, {EVENT => "BEG", TIME => $token->{TBEG}, SPKR => $token->{SPKR}};
+	push @spkr_events, {EVENT => "END", TIME => $token->{TEND}, SPKR => $token->{SPKR}};
+    }
+    @spkr_events = sort {($a->{TIME} < $b->{TIME} ? -1 :
+			  ($a->{TIME} > $b->{TIME} ? 1 :
+			   $a->{EVENT} eq "BEG"))} @spkr_events;
+
+#create noscore zones
+    foreach $event (@spkr_events) {
+	if ($event->{EVENT} eq "BEG") {
+	    next unless ++$spkr_cnt == 2;
+	    $tbeg_overlap = $event->{TIME};
+	}
+	else {
+	    next unless --$spkr_cnt == 1;
+	    push @events, {TYPE => "NSZ", EVENT => "BEG", TIME => $tbeg_overlap};
+	    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $event->{TIME}};
+	}
+    }
+	
+#merge noscore zones with UEM data
+    foreach $uem (@$uem_data) {
+	next unless $uem->{TEND}-$uem->{TBEG} > 0;
+	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
+	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
+    }
+    @events = sort {($a->{TIME} < $b->{TIME} ? -1 :
+		     ($a->{TIME} > $b->{TIME} ? 1 :
+		      $a->{EVENT} eq "BEG"))} @events;
+
+    my $tbeg = my $evl_cnt = my $nsz_cnt = my $evaluating = 0;
+    foreach $event (@events) {
+	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
+	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
+	if ($evaluating and
+	    ($evl_cnt == 0 or $nsz_cnt > 0)) {
+	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}}
+	        if $event->{TIME} > $tbeg;
+	    $evaluating = 0;
+	}
+	elsif (not $evaluating and $evl_cnt > 0 and $nsz_cnt == 0) {
+	    $tbeg = $event->{TIME};
+	    $evaluating = 1;
+	}
+    }
+	    
+    return $uem_ex;
+}
+
+#################################
+
+sub add_exclusion_zones_to_uem {
+
+    my ($excluded_tokens, $uem_score, $rttm_data, $max_extend) = @_;
+    my (@events, $event, $uem, $uem_ex, $spkr, $spkr_seg, $tbeg, $evaluating, $token);
+    my (@ns_events, $evl_cnt, $lex_cnt, $nsz_cnt, $tstart, $tstop);
+    my ($tbeg_lex, $tbeg_nsz, $tend_lex, $tend_nsz, $tseg);
+
+    return $uem_score unless defined $excluded_tokens and (keys %$excluded_tokens) > 0;
+
+#gather data needed to create noscore zones
+    foreach $token (@$rttm_data) {
+	if ($token->{TYPE} eq "LEXEME" and
+	    not defined $excluded_tokens->{LEXEME}{$token->{SUBT}} and
+	    $token->{TDUR} > 0) {
+	    push @ns_events, {TYPE => "LEX", EVENT => "BEG", TIME => $token->{TBEG}};
+	    push @ns_events, {TYPE => "LEX", EVENT => "END", TIME => $token->{TEND}};
+	}
+	elsif ($token->{TYPE} eq "SPEAKER" and
+	       $token->{TDUR} > 0) {
+	    push @ns_events, {TYPE => "SEG", EVENT => "BEG", TIME => $token->{TBEG}};
+	    push @ns_events, {TYPE => "SEG", EVENT => "END", TIME => $token->{TEND}};
+	}
+	elsif (defined $excluded_tokens->{$token->{TYPE}}{$token->{SUBT}} and
+	       $token->{TDUR} > 0) {
+	    push @ns_events, {TYPE => "NSZ", EVENT => "BEG", TIME => $token->{TBEG}};
+	    push @ns_events, {TYPE => "NSZ", EVENT => "END", TIME => $token->{TEND}};
+	}
+    }
+#a zone that ends (or begins) at a boundary must see that boundary after its own end (before its own beginning)
+    my %tie_order = (END => {NSZ => 0, SEG => 1, LEX => 1}, BEG => {SEG => 2, LEX => 2, NSZ => 3});
+    @ns_events = sort {($a->{TIME} < $b->{TIME}-$epsilon ? -1 :
+			($a->{TIME} > $b->{TIME}+$epsilon ? 1 :
+			 $tie_order{$a->{EVENT}}{$a->{TYPE}} <=> $tie_order{$b->{EVENT}}{$b->{TYPE}}))} @ns_events;
+
+#create noscore zones
+    $evaluating = 1;
+    $max_extend = $epsilon if not $max_extend or $max_extend < $epsilon;
+    $tseg = $tbeg_nsz = $tbeg_lex = $tend_nsz = $tend_lex = 0;
+    $lex_cnt = $nsz_cnt = 0;
+    foreach $event (@ns_events) {
+	if ($event->{TYPE} eq "LEX") {
+	    if ($event->{EVENT} eq "BEG") {
+		$tbeg_lex = $event->{TIME} if $lex_cnt++ == 0;
+	    }
+	    else {
+		$tend_lex = $event->{TIME} if $lex_cnt-- == 1;
+	    }
+	}
+	elsif ($event->{TYPE} eq "NSZ") {
+	    if ($event->{EVENT} eq "BEG") {
+		$tbeg_nsz = $event->{TIME} if $nsz_cnt++ == 0;
+	    }
+	    else {
+		$tend_nsz = $event->{TIME} if $nsz_cnt-- == 1;
+	    }
+	}
+	elsif ($event->{TYPE} eq "SEG") {
+	    $tseg = $event->{TIME};
+	}
+
+	if ($evaluating) {
+	    next if ($nsz_cnt == 0 or
+		     $event->{TYPE} ne "NSZ");
+	    $tstop = ($lex_cnt > 0 ? $event->{TIME} :
+		      max($tend_lex, $tseg, $event->{TIME}-$max_extend));
+	    push @events, {TYPE => "NSZ", EVENT => "BEG", TIME => $tstop};
+	    $evaluating = 0;
+	}
+	elsif ($nsz_cnt == 0 and
+	       ($lex_cnt > 0 or
+		$event->{TYPE} eq "SEG")) {
+	    $tstart = min($tend_nsz+$max_extend, $event->{TIME});
+	    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tstart};
+	    $evaluating = 1;
+	}
+	elsif ($nsz_cnt == 1 and
+	       $event->{TYPE} eq "NSZ" and
+	       $event->{EVENT} eq "BEG" and
+	       $event->{TIME} > $tend_nsz+2*$max_extend) {
+	    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tend_nsz+$max_extend};
+	    push @events, {TYPE => "NSZ", EVENT => "BEG", TIME => $event->{TIME}-$max_extend};
+	    $evaluating = 0;
+	}
+    }
+    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tend_nsz+$max_extend}
+	unless $evaluating;
+
+#merge noscore zones with UEM data
+    foreach $uem (@$uem_score) {
+	next unless $uem->{TEND}-$uem->{TBEG} > 0;
+	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
+	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
+    }
+    @events = sort {($a->{TIME} < $b->{TIME} ? -1 :
+		     ($a->{TIME} > $b->{TIME} ? 1 :
+		      $a->{EVENT} eq "BEG"))} @events;
+    $evl_cnt = $evaluating = 0;
+    foreach $event (@events) {
+	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
+	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
+	if ($evaluating and
+	    ($evl_cnt == 0 or $nsz_cnt > 0)) {
+	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}}
+	        if $event->{TIME} > $tbeg;
+	    $evaluating = 0;
+	}
+	elsif (not $evaluating and $evl_cnt > 0 and $nsz_cnt == 0) {
+	    $tbeg = $event->{TIME};
+	    $evaluating = 1;
+	}
+    }
+	    
+    return $uem_ex;
+}
+
+#################################
+
+sub uem_from_rttm {
+
+    my ($rttm_data) = @_;
+    my ($token, $tbeg, $tend);
+
+    ($tbeg, $tend) = (1E30, 0);
+    foreach $token (@$rttm_data) {
+	($tbeg, $tend) = (min($tbeg,$token->{TBEG}), max($tend,$token->{TEND})) if
+	    $token->{TYPE} =~ /^(SEGMENT|SPEAKER|SU|EDIT|FILLER|IP|CB|A\/P|LEXEME|NON-LEX)$/;
+    }
+
+    return [{TBEG => $tbeg, TEND => $tend}];
+}
+
+#################################
+
+sub create_speaker_segs {
+
+    my ($uem_score, $ref_data, $sys_data) = @_;
+    my ($spkr, $seg, @events, $event, $uem, $segments, $tbeg, $tend);
+    my ($evaluate, %ref_spkrs, %sys_spkrs, $spkrs);
+
+    foreach $uem (@$uem_score) {
+	next unless $uem->{TEND} > $uem->{TBEG}+$epsilon;
+	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
+	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
+    }
+    foreach $spkr (keys %$ref_data) {
+	foreach $seg (@{$ref_data->{$spkr}}) {
+	    next unless $seg->{TDUR} > 0;
+	    push @events, {TYPE => "REF", SPKR => $spkr, EVENT => "BEG", TIME => $seg->{TBEG}};
+	    push @events, {TYPE => "REF", SPKR => $spkr, EVENT => "END", TIME => $seg->{TEND}};
+	}
+    }
+    foreach $spkr (keys %$sys_data) {
+	foreach $seg (@{$sys_data->{$spkr}}) {
+	    next unless $seg->{TDUR} > 0;
+	    push @events, {TYPE => "SYS", SPKR => $spkr, EVENT => "BEG", TIME => $seg->{RTBEG}};
+	    push @events, {TYPE => "SYS", SPKR => $spkr, EVENT => "END", TIME => $seg->{RTEND}};
+	}
+    }
+    @events = sort {($a->{TIME} < $b->{TIME}-$epsilon  ? -1 :
+		     ($a->{TIME} > $b->{TIME}+$epsilon ?  1 :
+		      ($a->{EVENT} eq "END"        ? -1 : 1)))} @events;
+    $evaluate = 0;
+    foreach $event (@events) {
+	if ($evaluate and $tbeg<$event->{TIME}) {
+	    $tend = $event->{TIME};
+	    push @$segments, {REF => {%ref_spkrs},
+			      SYS => {%sys_spkrs},
+			      TBEG => $tbeg,
+			      TEND => $tend,
+			      TDUR => $tend-$tbeg};
+	    $tbeg = $tend;
+	}
+	if ($event->{TYPE} eq "UEM") {
+	    $evaluate = $event->{EVENT} eq "BEG";
+	    $tbeg = $event->{TIME} if $evaluate;
+	}
+	else {
+	    $spkrs = $event->{TYPE} eq "REF" ? \%ref_spkrs : \%sys_spkrs;
+	    ($event->{EVENT} eq "BEG") ? $spkrs->{$event->{SPKR}}++ : $spkrs->{$event->{SPKR}}--;
+	    $spkrs->{$event->{SPKR}} <= 1 or warn
+	        "WARNING:  speaker $event->{SPKR} speaking more than once at time $event->{TIME}\n";
+	    delete $spkrs->{$event->{SPKR}} unless $spkrs->{$event->{SPKR}};
+	}
+    }
+    return $segments;
+}
+
+#################################
+
+sub sd_performance_analysis {
+
+    my ($scores, $subtypes) = @_;
+    my ($file, $chnl, $class, $kind, $ref_type, $sys_type);
+    my ($xscores, %cum_scores, $count);
+
+#accumulate statistics
+    foreach $file (keys %$scores) {
+	foreach $chnl (keys %{$scores->{$file}}) {
+	    $xscores = $scores->{$file}{$chnl};
+	    foreach $ref_type (keys %$xscores) {
+		next if $ref_type eq "TYPE";
+		$count = $xscores->{$ref_type};
+		$cum_scores{ALL}{$ref_type} += $count;
+		$cum_scores{"c=$chnl f=$file"}{$ref_type} += $xscores->{$ref_type} if $opt_a =~ /c/i and $opt_a =~ /f/i;
+		$cum_scores{"c=$chnl"}{$ref_type} += $xscores->{$ref_type} if $opt_a =~ /c/i and not $opt_a =~ /f/i;
+		$cum_scores{"f=$file"}{$ref_type} += $xscores->{$ref_type} if $opt_a =~ /f/i and not $opt_a =~ /c/i;
+	    }
+	    $xscores = $xscores->{TYPE};
+	    foreach my $class ("TIME", "NSPK") {
+		foreach my $kind ("REF", "SYS") {
+		    foreach $ref_type (keys %{$xscores->{$class}{$kind}}) {
+			$count = $xscores->{$class}{$kind}{$ref_type};
+			$cum_scores{ALL}{TYPE}{$class}{$kind}{$ref_type} += $count;
+			$cum_scores{"c=$chnl f=$file"}{TYPE}{$class}{$kind}{$ref_type} += $count if $opt_a =~ /c/i and $opt_a =~ /f/i;
+			$cum_scores{"c=$chnl"}{TYPE}{$class}{$kind}{$ref_type} += $count if $opt_a =~ /c/i and not $opt_a =~ /f/i;
+			$cum_scores{"f=$file"}{TYPE}{$class}{$kind}{$ref_type} += $count if $opt_a =~ /f/i and not $opt_a =~ /c/i;
+		    }
+		}
+		foreach $ref_type (keys %{$xscores->{$class}{JOINT}}) {
+		    foreach $sys_type (keys %{$xscores->{$class}{JOINT}{$ref_type}}) {
+			$count = $xscores->{$class}{JOINT}{$ref_type}{$sys_type};
+			$cum_scores{ALL}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count;
+			$cum_scores{"c=$chnl f=$file"}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count if $opt_a =~ /c/i and $opt_a =~ /f/i;
+			$cum_scores{"c=$chnl"}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count if $opt_a =~ /c/i and not $opt_a =~ /f/i;
+			$cum_scores{"f=$file"}{TYPE}{$class}{JOINT}{$ref_type}{$sys_type} += $count if $opt_a =~ /f/i and not $opt_a =~ /c/i;
+		    }
+		}
+	    }
+	}
+    }
+
+    foreach my $condition (sort keys %cum_scores) {
+	print_sd_scores ($condition, $cum_scores{$condition}) if $condition !~ /ALL/;
+    }
+    print_sd_scores ("ALL", $cum_scores{ALL});
+}
+
+#################################
+
+sub print_sd_scores {
+
+    my ($condition, $scores) = @_;
+
+    printf "\n*** Performance analysis for Speaker Diarization for $condition ***\n\n";
+
+    printf "    EVAL TIME =%10.2f secs\n", $scores->{EVAL_TIME};
+    printf "  EVAL SPEECH =%10.2f secs (%5.1f percent of evaluated time)\n", $scores->{EVAL_SPEECH},
+        100*$scores->{EVAL_SPEECH}/$scores->{EVAL_TIME};
+    printf "  SCORED TIME =%10.2f secs (%5.1f percent of evaluated time)\n",
+        $scores->{SCORED_TIME}, 100*$scores->{SCORED_TIME}/$scores->{EVAL_TIME};
+    printf "SCORED SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
+        $scores->{SCORED_SPEECH}, 100*$scores->{SCORED_SPEECH}/$scores->{SCORED_TIME};
+    printf "   EVAL WORDS =%7d        \n", $scores->{EVAL_WORDS};
+    printf " SCORED WORDS =%7d         (%5.1f percent of evaluated words)\n",
+        $scores->{SCORED_WORDS}, 100*$scores->{SCORED_WORDS}/$scores->{EVAL_WORDS};
+    print "---------------------------------------------\n";
+    printf "MISSED SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
+        $scores->{MISSED_SPEECH}, 100*$scores->{MISSED_SPEECH}/$scores->{SCORED_TIME};
+    printf "FALARM SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
+        $scores->{FALARM_SPEECH}, 100*$scores->{FALARM_SPEECH}/$scores->{SCORED_TIME};
+    printf " MISSED WORDS =%7d         (%5.1f percent of scored words)\n",
+        $scores->{MISSED_WORDS}, 100*$scores->{MISSED_WORDS}/$scores->{SCORED_WORDS};
+    print "---------------------------------------------\n";
+    printf "SCORED SPEAKER TIME =%10.2f secs (%5.1f percent of scored speech)\n",
+        $scores->{SCORED_SPEAKER}, 100*$scores->{SCORED_SPEAKER}/$scores->{SCORED_SPEECH};
+    printf "MISSED SPEAKER TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
+        $scores->{MISSED_SPEAKER}, 100*$scores->{MISSED_SPEAKER}/$scores->{SCORED_SPEAKER};
+    printf "FALARM SPEAKER TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
+        $scores->{FALARM_SPEAKER}, 100*$scores->{FALARM_SPEAKER}/$scores->{SCORED_SPEAKER};
+    printf " SPEAKER ERROR TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
+        $scores->{SPEAKER_ERROR}, 100*$scores->{SPEAKER_ERROR}/$scores->{SCORED_SPEAKER};
+    printf "SPEAKER ERROR WORDS =%7d         (%5.1f percent of scored speaker words)\n",
+        $scores->{ERROR_WORDS}, 100*$scores->{ERROR_WORDS}/$scores->{SCORED_WORDS};
+    print "---------------------------------------------\n";
+#    if ($condition eq "ALL") {
+#      printf " OVERALL SPEAKER DIARIZATION ERROR = %.2f percent of scored speaker time\n",
+#         100*($scores->{MISSED_SPEAKER} + $scores->{FALARM_SPEAKER} + $scores->{SPEAKER_ERROR})/
+#	    $scores->{SCORED_SPEAKER};
+#    } else {
+      printf " OVERALL SPEAKER DIARIZATION ERROR = %.2f percent of scored speaker time  %s\n",
+         100*($scores->{MISSED_SPEAKER} + $scores->{FALARM_SPEAKER} + $scores->{SPEAKER_ERROR})/
+    	    $scores->{SCORED_SPEAKER}, "`($condition)";
+#    }
+    print "---------------------------------------------\n";
+    printf " Speaker type confusion matrix -- speaker weighted\n";
+    summarize_speaker_type_performance ("NSPK", $scores->{TYPE}{NSPK});
+    print "---------------------------------------------\n";
+    printf " Speaker type confusion matrix -- time weighted\n";
+    summarize_speaker_type_performance ("TIME", $scores->{TYPE}{TIME});
+    print "---------------------------------------------\n";
+}
+
+#################################
+
+sub summarize_speaker_type_performance {
+
+    my ($class, $stats) = @_;
+    my ($ref_type, $sys_type, $sys_stat);
+
+    print "  REF\\SYS (count)      " if $class eq "NSPK";
+    print "  REF\\SYS (seconds)    " if $class eq "TIME";
+    foreach $sys_type ((sort keys %{$stats->{SYS}}), $miss_name) {
+	printf "%-20s", $sys_type;
+    }
+    print "\n";
+
+    my $ref_tot = 0;
+    foreach $ref_type (keys %{$stats->{REF}}) {
+	$ref_tot += $stats->{REF}{$ref_type};
+    }
+    
+    foreach $ref_type ((sort keys %{$stats->{REF}}), $fa_name) {
+	printf "%-16s", $ref_type;
+	foreach $sys_type ((sort keys %{$stats->{SYS}}), $miss_name) {
+	    next if $ref_type eq $fa_name and $sys_type eq $miss_name;
+	    $sys_stat = $stats->{JOINT}{$ref_type}{$sys_type};
+	    $sys_stat = 0 unless defined $sys_stat;
+	    printf "%11d /%6.1f",   $sys_stat, min(999.9,$ref_tot ? 100*$sys_stat/$ref_tot : 9E9) if $class eq "NSPK";
+	    printf "%11.2f /%6.1f", $sys_stat, min(999.9,$ref_tot ? 100*$sys_stat/$ref_tot : 9E9) if $class eq "TIME";
+	    print "%";
+	}
+	print "\n";
+    }
+}
+
+#################################
+
+sub map_speakers {
+
+    my ($spkr_overlap) = @_;
+
+#compute the costs
+    my $cost = {};
+    foreach my $ref_spkr (keys %$spkr_overlap) {
+	foreach my $sys_spkr (keys %{$spkr_overlap->{$ref_spkr}}) {
+	    $cost->{$ref_spkr}{$sys_spkr} = -$spkr_overlap->{$ref_spkr}{$sys_spkr};
+	}
+    }
+
+#find the mapping that maximizes the cumulative match time between ref and sys spkrs
+    my $map = weighted_bipartite_graph_match ($cost);
+    return $map;
+}
+
+#################################
+
+sub inverse_speaker_map {
+
+    my ($speaker_map) = @_;
+    my ($speaker, $inverse_speaker_map);
+
+    foreach $speaker (keys %$speaker_map) {
+	$inverse_speaker_map->{$speaker_map->{$speaker}} = $speaker;
+    }
+    return $inverse_speaker_map;
+}
+
+#################################
+
+sub print_speaker_map {
+
+    my ($spkr_map, $time_overlap) = @_;
+    my ($ref_spkr, $sys_spkr);
+
+    foreach $ref_spkr (sort keys %$time_overlap) {
+	$sys_spkr = $spkr_map->{$ref_spkr};
+	print "'$ref_spkr' => ", defined $sys_spkr ? "'$sys_spkr'\n" : "<nil>\n";
+	foreach $sys_spkr (sort keys %{$time_overlap->{$ref_spkr}}) {
+	    my $time = $time_overlap->{$ref_spkr}{$sys_spkr};
+	    printf "%9.2f secs matched to '$sys_spkr'\n", defined $time ? $time : 0;
+	}
+    }
+}
+
+#################################
+
+sub start_speaker_map_file {
+    my ($outFile) = @_;
+    open (FILE, ">$outFile") || die "Error: Unable to open speaker map CSV file '$outFile' for write";
+    print FILE "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n";
+    close FILE;
+}
+
+#################################
+
+sub update_speaker_map_file {
+
+    my ($spkr_map, $time_overlap, $file, $chnl, $outFile) = @_;
+
+    open (FILE, ">>$outFile") || die "Error: Failed to open speaker map CSV file '$outFile' for append";
+    foreach my $ref_spkr (sort keys %$time_overlap) {
+	foreach my $sys_spkr (sort keys %{$time_overlap->{$ref_spkr}}) {
+	    my $time = sprintf("%.4f",$time_overlap->{$ref_spkr}{$sys_spkr});
+	    print FILE "$file,$chnl,$ref_spkr,$sys_spkr";
+	    print FILE ",".((defined($spkr_map->{$ref_spkr}) && $sys_spkr eq $spkr_map->{$ref_spkr}) ? "mapped" : "notmapped");
+	    print FILE ",$time\n";
+	}
+    }
+    close FILE,
+}
+
+#################################
+
+sub print_speaker_segs {
+
+    my ($segs, $file, $chnl) = @_;
+    my ($seg, @segs, $spkr, $sep);
+
+    @segs = @$segs;
+    while ($seg = shift @segs) {
+	printf "beg/dur/end = %7.3f/%7.3f/%7.3f; REF = (", $seg->{TBEG}, $seg->{TDUR}, $seg->{TEND};
+	print "<none>" unless defined keys %{$seg->{REF}};
+	$sep = "";
+	foreach $spkr (sort keys %{$seg->{REF}}) {
+	    print "$sep$spkr";
+	    $sep = ", ";
+	}
+	print "); SYS = (";
+	$sep = "";
+	print "<none>" unless defined keys %{$seg->{SYS}};
+	foreach $spkr (sort keys %{$seg->{SYS}}) {
+	    print "$sep$spkr";
+	    $sep = ", ";
+	}
+	print "); file = $file; chnl = $chnl\n";
+    }
+}
+
+#################################
+
+sub sort_time {
+
+    my ($token, $key) = @_;
+
+    my $time = $token->{"R$key"};
+    $time = $token->{$key} if not defined $time;
+    return int(100*$time+0.5)/100
+}
+
+#################################
+
+sub display_metadata_mapping {
+
+    my ($file, $chnl, $ref_rttm, $sys_rttm, $ref_wds) = @_;
+    my ($type, $sys_token, @events, $event, %type_cnt);
+    my ($mapped, $beg_mapped, $end_mapped, $whole, $spkr_map, $sys_speaker_field);
+    my %ref_tag = (NOSCORE        => "XS", NO_RT_METADATA => "NM", SEGMENT        => "SG", SPEAKER        => "SP",
+		   SU             => "SU", "A/P"          => "AP", "NON-SPEECH"   => "NS", EDIT           => "ED",
+		   FILLER         => "FL", IP             => "IP", CB             => "CB", "NON-LEX"      => "NL",
+		   LEXEME         => "LX");
+    my %sys_tag = (SPEAKER        => "SP", SU             => "SU", EDIT           => "ED", FILLER         => "FL",
+		   IP             => "IP", LEXEME         => "LX");
+
+#create a vector of rttm events
+    foreach my $token (@$ref_rttm) {
+	next unless defined $ref_tag{$token->{TYPE}};
+	push @events, {EVENT => "BEG", TIME => sort_time ($token, "TBEG"), TYPE => $token->{TYPE}, SRC => "REF", TOKEN => $token};
+	push @events, {EVENT => "END", TIME => sort_time ($token, "TEND"), TYPE => $token->{TYPE}, SRC => "REF", TOKEN => $token}
+	    unless $token->{TYPE} =~ /^(IP|CB)$/;
+	$token->{COUNT} = ++$type_cnt{$token->{TYPE}};
+    }
+    foreach my $token (@$sys_rttm) {
+	next unless defined $sys_tag{$token->{TYPE}};
+	push @events, {EVENT => "BEG", TIME => sort_time ($token, "TBEG"), TYPE => $token->{TYPE}, SRC => "SYS", TOKEN => $token};
+	push @events, {EVENT => "END", TIME => sort_time ($token, "TEND"), TYPE => $token->{TYPE}, SRC => "SYS", TOKEN => $token}
+	    unless $token->{TYPE} =~ /^(IP|CB)$/;
+    }
+
+    @events = sort sort_events @events;
+
+    $spkr_map = inverse_speaker_map ($speaker_map{$file}{$chnl});
+
+    print "\nChronological display of sys data aligned with ref data for file '$file', channel '$chnl'\n";
+    print "----------------------- reference ----------------------- | mapped | --------------------- system output ---------------------\n";
+    print "    --type-- -subtyp- -----word/spkr-----  -tbeg-  -tend- | ref_ID |     --type-- -subtyp- -----word/spkr-----  -tbeg-  -tend-\n";
+
+    while (@events) {
+        my ($token, $ref, $ref_beg, $ref_end, $sys, $sys_beg, $sys_end);
+	while (@events and
+	       (not $token or
+		$token eq $events[0]->{TOKEN} or 
+		($events[0]->{TOKEN}{MAPPTR} and
+		 $token eq $events[0]->{TOKEN}{MAPPTR}))) { # collect events to display on the same line
+	    $event = shift @events;
+	    $token = $event->{TOKEN};
+	    $event->{SRC} eq "REF" ? ($ref = $token, ($event->{EVENT} eq "BEG" ? $ref_beg : $ref_end) = 1) :
+	                             ($sys = $token, ($event->{EVENT} eq "BEG" ? $sys_beg : $sys_end) = 1);
+	}
+	if ($ref) {
+	    printf "%-3.3s %-8.8s %-8.8s %-19.19s%8s%8s | %-6.6s |",
+	    (($ref->{TYPE} =~ /^(IP|CB)$/ or ($ref_beg and $ref_end)) ? "" : ($ref_beg ? "beg" : "end")),
+	    $ref->{TYPE}, $ref->{SUBT},
+	    $ref->{WORD} ne "<na>" ? uc $ref->{WORD} : $ref->{SPKR},
+	    $ref_beg ? (sprintf "%8.2f", $ref->{TBEG}) : "",
+	    $ref_end ? (sprintf "%8.2f", $ref->{TEND}) : "",
+	    $ref->{MAPPTR} ? (sprintf "%s%d", $ref_tag{$ref->{TYPE}}, $ref->{COUNT}) :
+		($md_subtypes{$ref->{TYPE}} ? "*Miss*" : "");
+	} elsif ($sys) {
+	    $ref = $sys->{MAPPTR};
+	    printf "%s%8s%8s | %-6.6s |", " "x41,
+	    $sys_beg ? (sprintf "%8.2f", defined $sys->{RTBEG} ? $sys->{RTBEG} : $sys->{TBEG}) : "",
+	    $sys_end ? (sprintf "%8.2f", defined $sys->{RTEND} ? $sys->{RTEND} : $sys->{TEND}) : "",
+	    $ref ? (sprintf "%s%d", $sys_tag{$ref->{TYPE}}, $ref->{COUNT}) :
+		($md_subtypes{$sys->{TYPE}} ? "**FA**" : "");
+	}
+	if ($sys) {
+	    $sys_speaker_field = $sys ? $sys->{SPKR} : "";
+	    $sys_speaker_field .= "=>$spkr_map->{$sys->{SPKR}}" if $spkr_map->{$sys->{SPKR}};
+	    printf "%3.3s %-8.8s %-8.8s %-19.19s%8s%8s",
+	    (($sys->{TYPE} =~ /^(IP|CB)$/ or ($sys_beg and $sys_end)) ? "" : ($sys_beg ? "beg" : "end")),
+	    $sys->{TYPE}, $sys->{SUBT},
+	    $sys->{WORD} ne "<na>" ? uc $sys->{WORD} : $sys_speaker_field,
+	    $sys_beg ? (sprintf "%8.2f", $sys->{TBEG}) : "",
+	    $sys_end ? (sprintf "%8.2f", $sys->{TEND}) : "";
+	    if ($md_subtypes{$sys->{TYPE}} and $ref = $sys->{MAPPTR}) {
+		my $dw = $sys_end ?
+		    ($ref->{WEND} <= $sys->{RWEND} ? 
+		     delta_metadata_error_words ("END", max($ref->{WEND}, $sys->{RWBEG}-1), $sys->{RWEND}, $ref_wds) :
+		     delta_metadata_error_words ("END", $ref->{WEND}, max($ref->{WBEG}-1, $sys->{RWEND}), $ref_wds)) :
+		    ($ref->{WBEG} <= $sys->{RWBEG} ? 
+		     delta_metadata_error_words ("BEG", $ref->{WBEG}, min(1+$ref->{WEND}, $sys->{RWBEG}), $ref_wds) :
+		     delta_metadata_error_words ("BEG", min($ref->{WBEG}, 1+$sys->{RWEND}), $sys->{RWBEG}, $ref_wds));
+		print " dw=$dw" if abs ($dw) > 0;
+	    }
+	}
+	print "\n";
+    }
+}
+
+#################################
+
+sub sort_events {
+
+    return ($a->{TIME} <=> $b->{TIME} or
+	    $event_order{$a->{EVENT}} <=> $event_order{$b->{EVENT}} or
+	    (($type_order{$a->{TYPE}} <=> $type_order{$b->{TYPE}})*($a->{EVENT} eq "END" ? -1 : 1)) or
+	    $source_order{$a->{SRC}} <=> $source_order{$b->{SRC}});
+}
+
+#################################
+
+sub weighted_bipartite_graph_match {
+    my ($score) = @_;
+    
+    my $required_precision = 1E-12;
+    my $INF = 1E30;
+    my (@row_mate, @col_mate, @row_dec, @col_inc);
+    my (@parent_row, @unchosen_row, @slack_row, @slack);
+    my ($k, $l, $row, $col, @col_min, $cost, %cost);
+    my $t = 0;
+    
+    unless (defined $score) {
+	warn "input to BGM is undefined\n";
+	return undef;
+    }
+    return {} if (keys %$score) == 0;
+    
+    my @rows = sort keys %{$score};
+    my $miss = "miss";
+    $miss .= "0" while exists $score->{$miss};
+    my (@cols, %cols);
+    my $min_score = $INF;
+    foreach $row (@rows) {
+	foreach $col (keys %{$score->{$row}}) {
+	    $min_score = min($min_score,$score->{$row}{$col});
+	    $cols{$col} = $col;
+	}
+    }
+    @cols = sort keys %cols;
+    my $fa = "fa";
+    $fa .= "0" while exists $cols{$fa};
+    my $reverse_search = @rows < @cols; # search is faster when ncols <= nrows
+    foreach $row (@rows) {
+	foreach $col (keys %{$score->{$row}}) {
+	    ($reverse_search ? $cost{$col}{$row} : $cost{$row}{$col})
+		= $score->{$row}{$col} - $min_score;
+	}
+    }
+    push @rows, $miss;
+    push @cols, $fa;
+    if ($reverse_search) {
+	my @xr = @rows;
+	@rows = @cols;
+	@cols = @xr;
+    }
+
+    my $nrows = @rows;
+    my $ncols = @cols;
+    my $nmax = max($nrows,$ncols);
+    my $no_match_cost = -$min_score*(1+$required_precision);
+
+    # subtract the column minimas
+    for ($l=0; $l<$nmax; $l++) {
+	$col_min[$l] = $no_match_cost;
+	next unless $l < $ncols;
+	$col = $cols[$l];
+	foreach $row (keys %cost) {
+	    next unless defined $cost{$row}{$col};
+	    my $val = $cost{$row}{$col};
+	    $col_min[$l] = $val if $val < $col_min[$l];
+	}
+    }
+    
+    # initial stage
+    for ($l=0; $l<$nmax; $l++) {
+	$col_inc[$l] = 0;
+	$slack[$l] = $INF;
+    }
+    
+  ROW:
+    for ($k=0; $k<$nmax; $k++) {
+	$row = $k < $nrows ? $rows[$k] : undef;
+	my $row_min = $no_match_cost;
+	for (my $l=0; $l<$ncols; $l++) {
+	    my $col = $cols[$l];
+	    my $val = ((defined $row and defined $cost{$row}{$col}) ? $cost{$row}{$col}: $no_match_cost) - $col_min[$l];
+	    $row_min = $val if $val < $row_min;
+	}
+	$row_dec[$k] = $row_min;
+	for ($l=0; $l<$nmax; $l++) {
+	    $col = $l < $ncols ? $cols[$l]: undef;
+	    $cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
+		     $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
+	    if ($cost==$row_min and not defined $row_mate[$l]) {
+		$col_mate[$k] = $l;
+		$row_mate[$l] = $k;
+                # matching row $k with column $l
+		next ROW;
+	    }
+	}
+	$col_mate[$k] = -1;
+	$unchosen_row[$t++] = $k;
+    }
+    
+    goto CHECK_RESULT if $t == 0;
+    
+    my $s;
+    my $unmatched = $t;
+    # start stages to get the rest of the matching
+    while (1) {
+	my $q = 0;
+	
+	while (1) {
+	    while ($q < $t) {
+		# explore node q of forest; if matching can be increased, update matching
+		$k = $unchosen_row[$q];
+		$row = $k < $nrows ? $rows[$k] : undef;
+		$s = $row_dec[$k];
+		for ($l=0; $l<$nmax; $l++) {
+		    if ($slack[$l]>0) {
+			$col = $l < $ncols ? $cols[$l]: undef;
+			$cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
+				 $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
+			my $del = $cost - $s + $col_inc[$l];
+			if ($del < $slack[$l]) {
+			    if ($del == 0) {
+				goto UPDATE_MATCHING unless defined $row_mate[$l];
+				$slack[$l] = 0;
+				$parent_row[$l] = $k;
+				$unchosen_row[$t++] = $row_mate[$l];
+			    }
+			    else {
+				$slack[$l] = $del;
+				$slack_row[$l] = $k;
+			    }
+			}
+		    }
+		}
+		
+		$q++;
+	    }
+	    
+	    # introduce a new zero into the matrix by modifying row_dec and col_inc
+	    # if the matching can be increased update matching
+	    $s = $INF;
+	    for ($l=0; $l<$nmax; $l++) {
+		if ($slack[$l] and ($slack[$l]<$s)) {
+		    $s = $slack[$l];
+		}
+	    }
+	    for ($q = 0; $q<$t; $q++) {
+		$row_dec[$unchosen_row[$q]] += $s;
+	    }
+	    
+	    for ($l=0; $l<$nmax; $l++) {
+		if ($slack[$l]) {
+		    $slack[$l] -= $s;
+		    if ($slack[$l]==0) {
+			# look at a new zero and update matching with col_inc uptodate if there's a breakthrough
+			$k = $slack_row[$l];
+			unless (defined $row_mate[$l]) {
+			    for (my $j=$l+1; $j<$nmax; $j++) {
+				if ($slack[$j]==0) {
+				    $col_inc[$j] += $s;
+				}
+			    }
+			    goto UPDATE_MATCHING;
+			}
+			else {
+			    $parent_row[$l] = $k;
+			    $unchosen_row[$t++] = $row_mate[$l];
+			}
+		    }
+		}
+		else {
+		    $col_inc[$l] += $s;
+		}
+	    }
+	}
+	
+      UPDATE_MATCHING:  # update the matching by pairing row k with column l
+	while (1) {
+	    my $j = $col_mate[$k];
+	    $col_mate[$k] = $l;
+	    $row_mate[$l] = $k;
+            # matching row $k with column $l
+	    last UPDATE_MATCHING if $j < 0;
+	    $k = $parent_row[$j];
+	    $l = $j;
+	}
+	
+	$unmatched--;
+	goto CHECK_RESULT if $unmatched == 0;
+	
+	$t = 0;  # get ready for another stage
+	for ($l=0; $l<$nmax; $l++) {
+	    $parent_row[$l] = -1;
+	    $slack[$l] = $INF;
+	}
+	for ($k=0; $k<$nmax; $k++) {
+	    $unchosen_row[$t++] = $k if $col_mate[$k] < 0;
+	}
+    }  # next stage
+    
+  CHECK_RESULT:  # rigorously check results before handing them back
+    for ($k=0; $k<$nmax; $k++) {
+	$row = $k < $nrows ? $rows[$k] : undef;
+	for ($l=0; $l<$nmax; $l++) {
+	    $col = $l < $ncols ? $cols[$l]: undef;
+	    $cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
+		     $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
+	    if ($cost < ($row_dec[$k] - $col_inc[$l])) {
+		next unless $cost < ($row_dec[$k] - $col_inc[$l]) - $required_precision*max(abs($row_dec[$k]),abs($col_inc[$l]));
+		warn "BGM: this cannot happen: cost{$row}{$col} ($cost) cannot be less than row_dec{$row} ($row_dec[$k]) - col_inc{$col} ($col_inc[$l])\n";
+		return undef;
+	    }
+	}
+    }
+    
+    for ($k=0; $k<$nmax; $k++) {
+	$row = $k < $nrows ? $rows[$k] : undef;
+	$l = $col_mate[$k];
+	$col = $l < $ncols ? $cols[$l]: undef;
+	$cost = ((defined $row and defined $col and defined $cost{$row}{$col}) ?
+		 $cost{$row}{$col} : $no_match_cost) - $col_min[$l];
+	if (($l<0) or ($cost != ($row_dec[$k] - $col_inc[$l]))) {
+	    next unless $l<0 or abs($cost - ($row_dec[$k] - $col_inc[$l])) > $required_precision*max(abs($row_dec[$k]),abs($col_inc[$l]));
+	    warn "BGM: every row should have a column mate: row $row doesn't, col: $col\n";
+	    return undef;
+	}
+    }
+    
+    my %map;
+    for ($l=0; $l<@row_mate; $l++) {
+	$k = $row_mate[$l];
+	$row = $k < $nrows ? $rows[$k] : undef;
+	$col = $l < $ncols ? $cols[$l]: undef;
+	next unless defined $row and defined $col and defined $cost{$row}{$col};
+	$reverse_search ? ($map{$col} = $row) : ($map{$row} = $col);
+    }
+    return {%map};
+}
-- 
2.43.0


From 4775c33de2297fd41d7e3a6369783992b6bebe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:32 +0000
Subject: [PATCH 75/96] fix: stmValidator accepted punctuation in non-English
 words and unclosed optional contractions; rttmValidator took speaker and file
 names as patterns and wanted speakers for NON-SPEECH

---
 src/rttmValidator/rttmValidator.pl | 6 +++---
 src/stmValidator/STMList.pm        | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rttmValidator/rttmValidator.pl b/src/rttmValidator/rttmValidator.pl
index 74c5aa5..1309215 100755
--- a/src/rttmValidator/rttmValidator.pl
+++ b/src/rttmValidator/rttmValidator.pl
@@ -208,7 +208,7 @@ sub check_syntax_errors {
 			    # This won't work if people concat all the files into one.
 			    # Make it a warning instead
 			    #
-			    if ($checkFileName && $obj->{SRC} !~ /^$file$/i) {
+			    if ($checkFileName && $obj->{SRC} !~ /^\Q$file\E$/i) {
 				print "WARNING: Source field '$obj->{SRC}' doesn't match the input file's base filename '$file'; see field (2) in $obj->{LOC}\n";
 			    }
 			    
@@ -375,7 +375,7 @@ sub check_syntax_errors {
 			    #
 			    if( ! $opt_p )
 			    {
-					if ($type !~ /(SPKR-INFO|NOSCORE|NONSPEECH)/i && ! find_speaker($obj->{SPKR}, $data) ) {
+					if ($type !~ /(SPKR-INFO|NOSCORE|NON-SPEECH)/i && ! find_speaker($obj->{SPKR}, $data) ) {
 					print "ERROR: Speaker $obj->{SPKR} doesn't match any of the speaker IDs in SPKR-INFO objects; see $obj->{LOC}\n";
 					$pass = 0;
 				}
@@ -822,7 +822,7 @@ sub find_speaker {
 	    foreach my $spkr (sort keys %{$data->{$src}{$chnl}}) {
 		foreach my $obj (@{$data->{$src}{$chnl}{$spkr}{'SPKR-INFO'}}) {
 		    $curr_spkr = $obj->{SPKR};
-		    if ($src_spkr =~ /^$curr_spkr$/i) {
+		    if ($src_spkr =~ /^\Q$curr_spkr\E$/i) {
 			return 1;
 		    }
 		}
diff --git a/src/stmValidator/STMList.pm b/src/stmValidator/STMList.pm
index 5465d34..7cb93e4 100644
--- a/src/stmValidator/STMList.pm
+++ b/src/stmValidator/STMList.pm
@@ -86,7 +86,7 @@ sub validateEnglishText{
 	    print "Token: /$token/ pass Rule 5\n" if ($dbg == 1);
 	} elsif ($token =~ /^([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))*$/i){  ## contractions
 	    print "Token: /$token/ pass Rule 5a\n" if ($dbg == 1);
-	} elsif ($token =~ /^\(([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))\)*$/i){  ## contractions
+	} elsif ($token =~ /^\(([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))*\)$/i){  ## contractions
 	    print "Token: /$token/ pass Rule 6\n" if ($dbg == 1);
 	} elsif ($token =~ /^(o'\S+|d'etre)$/i){               ## Special contractions
 	    print "Token: /$token/ pass Rule 7\n" if ($dbg == 1);
@@ -107,7 +107,7 @@ sub validateEnglishText{
 sub validateNonEnglishText{
     my ($self, $text, $language, $verbosity) = @_;
     my $err = 0;
-    my $punct = "\!\@\#\$\^\&\*\(\)\`\~\_\+\=\{\[\}\]\|\\\<\,\>\.\?\/\-";
+    my $punct = '\!\@\#\$\^\&\*\(\)\`\~\_\+\=\{\[\}\]\|\\\\\<\,\>\.\?\/\-';
     foreach my $token (split(/\s+/, $text)){
 	if ($token =~ /^ignore_time_segment_in_scoring$/i){
 	    ;
-- 
2.43.0


From 57eb8d5162de612e3d4ecb37ef428c79fb071fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:18 +0000
Subject: [PATCH 76/96] fix: mergectm2rttm lost words and turns that begin at
 the same time

---
 src/mergectm2rttm/mergectm2rttm.pl | 45 +++++++++++++++---------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/mergectm2rttm/mergectm2rttm.pl b/src/mergectm2rttm/mergectm2rttm.pl
index 0e66b88..74f0406 100755
--- a/src/mergectm2rttm/mergectm2rttm.pl
+++ b/src/mergectm2rttm/mergectm2rttm.pl
@@ -68,7 +68,7 @@ sub loadRTTMFile
 		
 		if(uc($type) eq "SPEAKER")
 		{
-			push( @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }, ($tbeg, $tdur, $ortho, $stype, $spkrname, $conf));
+			push( @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }, [ ($tbeg, $tdur, $ortho, $stype, $spkrname, $conf) ]);
 		}
 	}
 	
@@ -101,7 +101,7 @@ sub loadCTMFile
 		{
 			my $mid = sprintf("%.4f", $tbeg+$tdur/2);
 									
-		    push( @{ $ctmhash->{$file}{$chnl}{$tbeg} }, ($tbeg, $tdur, $ortho, $stype, $conf, $mid));
+		    push( @{ $ctmhash->{$file}{$chnl}{$tbeg} }, [ ($tbeg, $tdur, $ortho, $stype, $conf, $mid) ]);
 		}
 	}
 	
@@ -115,13 +115,14 @@ sub findSpeaker
 	
 	foreach my $tbeg(sort keys %{ $rttmhash->{DATA}{$file}{$chnl} })
 	{
-		my $bt = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[0];
-		my $dur = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[1];
-		my $spkrname = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[4];
-		
-		if( ($bt <= $mid) && ($mid <= sprintf("%.3f", $bt+$dur) ) )
+		foreach my $turn(@{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} })
 		{
-			push( @listspkr, [ ($spkrname, $tbeg) ] );
+			my ($bt, $dur, $spkrname) = @{ $turn }[0, 1, 4];
+			
+			if( ($bt <= $mid) && ($mid <= sprintf("%.3f", $bt+$dur) ) )
+			{
+				push( @listspkr, [ ($spkrname, $tbeg) ] );
+			}
 		}
 	}
 	
@@ -143,21 +144,19 @@ sub MergedData
 	{
 		foreach my $tbeg(sort {$a <=> $b} keys %{ $ctmhash->{$file}{$chnl} })
 		{
-			my $mid = $ctmhash->{$file}{$chnl}{$tbeg}[5];
-		    my $spkrtbeg = findSpeaker($rttmhash, $file, $chnl, $mid);
-		    
-		    if($spkrtbeg)
-		    {
-		    	my $ctmbeg = $ctmhash->{$file}{$chnl}{$tbeg}[0];
-		    	my $ctmdur = $ctmhash->{$file}{$chnl}{$tbeg}[1];
-		    	my $ctmortho = $ctmhash->{$file}{$chnl}{$tbeg}[2];
-		    	my $ctmstype = $ctmhash->{$file}{$chnl}{$tbeg}[3];
-		    	my $ctmconf = $ctmhash->{$file}{$chnl}{$tbeg}[4];
-		    	my $ctmspkr = $spkrtbeg->[0];
-		    	
-		    	print OUTPUT "SPEAKER $file $chnl $ctmbeg $ctmdur <NA> <NA> $ctmspkr <NA>\n";
-		    	print OUTPUT "LEXEME $file $chnl $ctmbeg $ctmdur $ctmortho $ctmstype $ctmspkr $ctmconf\n";
-		    }
+			foreach my $word(@{ $ctmhash->{$file}{$chnl}{$tbeg} })
+			{
+				my ($ctmbeg, $ctmdur, $ctmortho, $ctmstype, $ctmconf, $mid) = @{ $word };
+				my $spkrtbeg = findSpeaker($rttmhash, $file, $chnl, $mid);
+				
+				if($spkrtbeg)
+				{
+					my $ctmspkr = $spkrtbeg->[0];
+					
+					print OUTPUT "SPEAKER $file $chnl $ctmbeg $ctmdur <NA> <NA> $ctmspkr <NA>\n";
+					print OUTPUT "LEXEME $file $chnl $ctmbeg $ctmdur $ctmortho $ctmstype $ctmspkr $ctmconf\n";
+				}
+			}
 		}
 	}
 }
-- 
2.43.0


From 97edb7b5e5bcabd7be2fc54f55d5b45c98958e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:18 +0000
Subject: [PATCH 77/96] fix: rttm2ctm refused NO_RT_METADATA records

---
 src/rttm2ctm/rttm2ctm.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rttm2ctm/rttm2ctm.pl b/src/rttm2ctm/rttm2ctm.pl
index 2312ea3..2be78b8 100755
--- a/src/rttm2ctm/rttm2ctm.pl
+++ b/src/rttm2ctm/rttm2ctm.pl
@@ -15,6 +15,7 @@ if (defined($main::opt_i)) {	$in = $main::opt_i; }
 my %sort_order = ("SPKRINFO"       => 0,
 		  "NOSCORE"         =>  1,
 		  "NORTMETADATA"  =>  2,
+		  "NO_RT_METADATA"  =>  2,
 		  "SEGMENT"         =>  3,
 		  "SPEAKER"         =>  4,
 		  "SU"              =>  5,
@@ -38,7 +39,7 @@ open OUT, ">$out" || die "Failed to open $out";
      my $wrdExp = '[\]\[\S\%\{'."\\'".'\<\>.-]+';
      my $txtExp = "$wrdExp|\\($wrdExp\\)|<NA>";
 #     my $txtExp = ".*|<NA>";
-     if (/(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)/) {
+     if (/(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NORTMETADATA|NO_RT_METADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)/) {
 #     print "($1, $2, $3, $4, $5, $6, $7, $8, $9, (defined($10) ? $10 : undef))\n";
        my ($type, $file, $chan, $beg, $dur, $token, $stype, $spkr, $conf, $slat) = ($1, $2, $3, $4, $5, $6, $7, $8, $9, (defined($10) ? $10 : undef));
        if ($1 eq "LEXEME" && $7 eq "lex"){
-- 
2.43.0


From b9e16f76c5296cc45f1b718bd5e8c485e3b1f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:18 +0000
Subject: [PATCH 78/96] fix: rttmSmooth joined turns of different channels, and
 left some gaps of exactly the threshold

---
 src/rttmSmooth/rttmSmooth.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rttmSmooth/rttmSmooth.pl b/src/rttmSmooth/rttmSmooth.pl
index ffa974a..8e5e359 100755
--- a/src/rttmSmooth/rttmSmooth.pl
+++ b/src/rttmSmooth/rttmSmooth.pl
@@ -20,7 +20,7 @@ while (<STDIN>){
 	next;
     }
     my @a = split;
-    push @{ $data{$a[1]." ".$a[7]}{$a[0]} }, \@a;
+    push @{ $data{$a[1]." ".$a[2]." ".$a[7]}{$a[0]} }, \@a;
 }
 #print Dumper(\%data);
 #exit;
@@ -42,7 +42,7 @@ foreach my $file(sort (keys %data)){
 #	die "Error: Segments from the same speaker overlap. \n   ".
 #	    join(" $i: ", @{$d[$i]}). "\n   ".($i+1)." " join("  ".@{ $d[$i]})
 #	    if ($d[$i]->[3] + $d[$i]->[4] > $d[$i+1]->[3]);
-	if ($d[$i]->[3] + $d[$i]->[4] >= $d[$i+1]->[3] - $time){
+	if ($d[$i]->[3] + $d[$i]->[4] >= $d[$i+1]->[3] - $time - 1e-6){  # gaps of exactly $time are smoothed
 #	    print "   Smooth with next ".($d[$i]->[3] + $d[$i]->[4])." with ",( $d[$i+1]->[3] - $time)."\n";
 	    $max = $d[$i]->[3] + $d[$i]->[4];
 	    $max = $d[$i+1]->[3] + $d[$i+1]->[4] if ($max < $d[$i+1]->[3] + $d[$i+1]->[4]);
-- 
2.43.0


From fc69ffbad291144ea503e44a5fbfb6d29c60a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:34 +0000
Subject: [PATCH 79/96] fix: rttmSort refused NO_RT_METADATA and misordered
 records whose equal times are written differently

---
 src/rttmSort/rttmSort.pl | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/rttmSort/rttmSort.pl b/src/rttmSort/rttmSort.pl
index d9f5394..5f52296 100755
--- a/src/rttmSort/rttmSort.pl
+++ b/src/rttmSort/rttmSort.pl
@@ -6,6 +6,7 @@ use Data::Dumper;
 my %sort_order = ("SPKRINFO"       => 0,
 		  "NOSCORE"         =>  1,
 		  "NORTMETADATA"  =>  2,
+		  "NO_RT_METADATA"  =>  2,
 		  "SEGMENT"         =>  3,
 		  "SPEAKER"         =>  4,
 		  "SU"              =>  5,
@@ -25,7 +26,8 @@ my %stm_file;
      my $wrdExp = '[\]\[\w%\{'."\\'".'\<\>.-]+';
      $wrdExp = '[^\s]+';
      my $txtExp = "$wrdExp|\\($wrdExp\\)|<NA>";
-     if (/(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)/) {
+     if (/(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NORTMETADATA|NO_RT_METADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)/) {
+	 my $beg = $4 eq "<NA>" ? $4 : $4 + 0;   # one key for every way to write a time
 	 if ($1 eq "SPKR-INFO") {
 #	     print "--$2  $8--\n";
 	     die "Error: spkrinfo exists for '$2 $8'" if (exists($spkrinfo{$2." ".$8}));
@@ -36,14 +38,14 @@ my %stm_file;
 	     $spkrinfo{$2." ".$8}{conf} = $9;
 	     $spkrinfo{$2." ".$8}{line} = $. . " $_";
 	 } else {
-	     $stm_file{$2}{$3}{$4}{$.}{type} = $1;
-	     $stm_file{$2}{$3}{$4}{$.}{beg_time} = $4;
-	     $stm_file{$2}{$3}{$4}{$.}{end_time} = $5;
-	     $stm_file{$2}{$3}{$4}{$.}{token} = $6;
-	     $stm_file{$2}{$3}{$4}{$.}{subtype} = $7;
-	     $stm_file{$2}{$3}{$4}{$.}{speaker} = $8;
-	     $stm_file{$2}{$3}{$4}{$.}{conf} = $9;
-	     $stm_file{$2}{$3}{$4}{$.}{line} = $. . " $_";
+	     $stm_file{$2}{$3}{$beg}{$.}{type} = $1;
+	     $stm_file{$2}{$3}{$beg}{$.}{beg_time} = $4;
+	     $stm_file{$2}{$3}{$beg}{$.}{end_time} = $5;
+	     $stm_file{$2}{$3}{$beg}{$.}{token} = $6;
+	     $stm_file{$2}{$3}{$beg}{$.}{subtype} = $7;
+	     $stm_file{$2}{$3}{$beg}{$.}{speaker} = $8;
+	     $stm_file{$2}{$3}{$beg}{$.}{conf} = $9;
+	     $stm_file{$2}{$3}{$beg}{$.}{line} = $. . " $_";
 	 }
      } elsif (/^;;/) {
 	 #nothing
@@ -69,7 +71,7 @@ foreach my $key_filename (sort keys %stm_file) {
     foreach my $key_channel (sort keys %{$stm_file{$key_filename}}) {
 	foreach my $key_begtime (sort cmp_float keys %{$stm_file{$key_filename}{$key_channel}}) {
 	    foreach my $line (sort {$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$a}{type}} <=>
-					$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$b}{type}}} 
+					$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$b}{type}} || $a <=> $b} 
 			      keys %{$stm_file{$key_filename}{$key_channel}{$key_begtime}}) {
 		print "$stm_file{$key_filename}{$key_channel}{$key_begtime}{$line}{type} ";
 		print "$key_filename $key_channel ";
-- 
2.43.0


From c2a7a8e65aafb0e67d5fa76c76e72b9e7864230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:18 +0000
Subject: [PATCH 80/96] fix: stm2rttm skipped the segment after each one it
 smoothed, and left some gaps of exactly the threshold

---
 src/stm2rttm/stm2rttm.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stm2rttm/stm2rttm.pl b/src/stm2rttm/stm2rttm.pl
index 2377d86..daf82be 100755
--- a/src/stm2rttm/stm2rttm.pl
+++ b/src/stm2rttm/stm2rttm.pl
@@ -103,11 +103,11 @@ foreach $spkr (keys %STM) {
 					    join(" ",@{$prev_seg})."\n  ".
 					    join(" ",@{$seg});
 				    }
-				    if ($seg->[$START_TIME] - $prev_seg->[$END_TIME] <= $SMOOTHING_TIME) {
+				    if ($seg->[$START_TIME] - $prev_seg->[$END_TIME] <= $SMOOTHING_TIME + 1e-6) {
 						$prev_seg->[$END_TIME] = $seg->[$END_TIME];
 						$prev_seg->[$TEXT] = $prev_seg->[$TEXT] . " " . $seg->[$TEXT];
 						splice (@{ $STM{$spkr}{$file}{$chan} }, $i, 1);
-						$i++;
+						$i--;
 				    } else {
 						$prev_seg = $seg;
 			    	}
-- 
2.43.0


From f7036532e30a64632bb12babba744ccf22da8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 81/96] fix: hubscr sorted records apart when their fields are
 separated differently

---
 src/hubscr/hubscr.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index 9c1b8e2..ab6d9b3 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -357,7 +357,7 @@ sub sortCTM{
 	s/^\s+//;
 	next if ($_ =~ /^;;/ || $_ =~ /^$/);
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[1]} }, \@a;
+	push @{ $data{$a[0]}{$a[2]} }, \@a;
     }
 
     foreach my $file(sort (keys %data)){
@@ -387,7 +387,7 @@ sub sortSTM{
 	    next;
 	}
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[1]} }, \@a;
+	push @{ $data{$a[0]}{$a[2]} }, \@a;
     }
 
     foreach my $file(sort (keys %data)){
-- 
2.43.0


From 2d75619eae60217203ea9fd2f6abb2d7bb365223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:26 +0000
Subject: [PATCH 82/96] fix: hubscr refused -M and every German test

---
 src/hubscr/hubscr.pl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index ab6d9b3..5235628 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -317,13 +317,13 @@ sub ProcessCommandLine
 	if (($Lang ne "german" && ($Lang ne "arabic")) && $LDCLEX ne "");
 
     die("$Usage\nError: Unable to access LDC Lexicon file '$LDCLEX'\n") 
-	if ($DEF_ART_ENABLED && ($Lang eq "german"));
+	if (($Lang eq "german") && (! -f $LDCLEX));
 
     #### Check the LM and WWL files
-    die("$Usage\nError: Unable to use both -M and -w\n") 
-	if (defined($main::opt_M) && defined($main::opt_w));
-    die("$Usage\nError: SLM language model '$main::opt_M' not found\n") 
-	if (defined($main::opt_M) && (! -f $main::opt_M));
+    die("$Usage\nError: Unable to use both -K and -w\n") 
+	if (defined($main::opt_K) && defined($main::opt_w));
+    die("$Usage\nError: SLM language model '$main::opt_K' not found\n") 
+	if (defined($main::opt_K) && (! -f $main::opt_K));
     die("$Usage\nError: WWL file '$main::opt_w' not found\n") 
 	if (defined($main::opt_w) && (! -f $main::opt_w));
 
-- 
2.43.0


From e35860c8c438835b255549b21d97a9d98e614598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:39 +0000
Subject: [PATCH 83/96] fix: hubscr scored empty files as a success when a
 filter failed, and needed a lexicon for Arabic

---
 src/hubscr/hubscr.pl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index 5235628..628254a 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -552,7 +552,7 @@ sub FilterFile
     { 
 	$csrfilt_com = "$CSRFILT -s -i $format -t $purpose -dh $GLM";
 	if ($DEF_ART_ENABLED){
-            $def_art_com = "$DEF_ART -s $LDCLEX -i $format - -";
+            $def_art_com = "$DEF_ART".($LDCLEX ne "" ? " -s $LDCLEX" : "")." -i $format - -";
 	} else {
             $def_art_com = "cat";
 	}
@@ -592,7 +592,8 @@ sub FilterFile
 #	    $com = "cat $file | $rtFilt > $outfile";
     print "      Exec: $com\n" if ($Vb);
     
-    $rtn = system $com;
+    ### any filter of the pipeline may fail
+    $rtn = system("bash", "-o", "pipefail", "-c", $com);
     if ($rtn != 0) {
 	system("rm -f $outfile");
 	die("Error: Unable to filter file: $file with command:\n   $com\n");
-- 
2.43.0


From 73b1f1a199c87321be8ae69c0e685c72253a4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:19 +0000
Subject: [PATCH 84/96] fix: acomp and def_art: word division (triplets, s
 before en, short lexicons), fragments, times, comments and the default format

---
 src/acomp/acomp.pl     | 13 ++++++++-----
 src/def_art/def_art.pl |  9 ++++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 5d84182..16a6e8f 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -83,7 +83,7 @@ open(IN,"$InFile") || die("Error: Unable to open input file '$InFile'");
 open(OUT,">$OutFile") || die("Error: Unable to open output file '$OutFile'");
 
 while (<IN>){
-    chop;
+    chomp;
     if ($_ =~ /^;;/){
 	print OUT "$_\n";
     } elsif ($InFmt eq "txt"){
@@ -102,7 +102,7 @@ while (<IN>){
 	$newt = &String_LU($ctm[4]);
 	@new_words = split(/\s+/,$newt);
 	for ($i=0; $i<=$#new_words; $i++){
-	    printf OUT ("%s %s %.2f %.2f %s %s\n",$ctm[0],$ctm[1],
+	    printf OUT ("%s %s %.3f %.3f %s %s\n",$ctm[0],$ctm[1],
 			$ctm[2] + ($i * ($ctm[3] / ($#new_words+1))),
 			$ctm[3] / ($#new_words + 1), $new_words[$i], $conf);
 	}
@@ -152,7 +152,7 @@ sub String_LU{
 		    $new .= "(".$ne.") ";
 		}
 	    } else {
-		$lookup =~ s/(\S+-)$/aq($1)/; 
+		$lookup =~ s/(\S+-)$/($1)/; 
 		$new .= "$lookup ";
 	    }
 	} else {
@@ -252,7 +252,7 @@ sub is_Compound{
 		    print "$ind**** Residual length < MinCompLen $MinCompLen\n" if ($db);
 		}
 		#### handle the geminate constant conditional
-		if (! $stop_recur && $DoTriplet && $sval =~ /([bcdfghjklmnpqrstvwxyz])\1$/){
+		if (! $stop_recur && $DoTriplet && $sval =~ /([bcdfghjklmnpqrstvwxyz])\1$/i){
 		    $resid = substr($val,$i-1);
 		    print $ind."      Possible geminate consonate subword residual $resid\n" if ($db);
 		    if (length($resid) >= $MinCompLen){
@@ -265,10 +265,11 @@ sub is_Compound{
 		    }		    
 		}
 		#### handle the insertion of syllables
+		$resid = substr($val,$i);
 		if (! $stop_recur && $DoInserts && ( $resid =~ /^([sS]|[eE][nN])/ ) ){
 		    local($gen);
 		    if ($resid =~ /^[sS]/){  $resid = substr($val,$i+1); $gen = "s" } 
-		    if ($resid =~ /^[eE][nN]/){  $resid = substr($val,$i+2); $gen = "en" } 
+		    elsif ($resid =~ /^[eE][nN]/){  $resid = substr($val,$i+2); $gen = "en" } 
 		    print $ind."      Possible additional '$gen' on residual '$gen'$resid\n" if ($db);
 		    if (length($resid) >= $MinCompLen){
 			if (&is_Compound($hist." $sval",$resid, $ind."   |",*comps) == 1){
@@ -313,6 +314,8 @@ sub LoadLex{
 	} else {
 	    $LexHash{$word} = "1";
 	    $CompHash{$word} = $word;
+	    $len = length($word);
+	    $MaxLen = $len if ($MaxLen < $len);
 	}
 	if (($. + 1) % 10000 == 0){
 	    print "." if ($db);
diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index ee76ded..3ae0cac 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -32,6 +32,7 @@ $Usage="Usage: def_art.sh [ -i fmt ] [ -s LDC_LEX ] -t Infile|- OutFile|-\n".
 "\n";
 
 $Format="Romanized";
+$InFmt="txt";
 $Lexicon="";
 $Translate = 0;
 %DefArt_LUT = ();
@@ -76,8 +77,10 @@ open(IN, "$InFile") || die "Unable to open trans-file $InFile";
 open(OUT, ">$OutFile") || die "Unable to open new-trans-file $OutFile";
 
 while (<IN>){
-    chop;
-    if ($InFmt eq "txt"){
+    chomp;
+    if ($_ =~ /^;;/){
+	print OUT "$_\n";
+    } elsif ($InFmt eq "txt"){
 	print OUT &String_LU($_)."\n";
     } elsif ($InFmt eq "ctm"){
 	s/^\s+//;
@@ -93,7 +96,7 @@ while (<IN>){
 	$newt = &String_LU($ctm[4]);
 	@new_words = split(/\s+/,$newt);
 	for ($i=0; $i<=$#new_words; $i++){
-	    printf OUT ("%s %s %.2f %.3f %s %s\n",$ctm[0],$ctm[1],
+	    printf OUT ("%s %s %.3f %.3f %s %s\n",$ctm[0],$ctm[1],
 			$ctm[2] + ($i * ($ctm[3] / ($#new_words+1))),
 			$ctm[3] / ($#new_words + 1), $new_words[$i], $conf);
 	}
-- 
2.43.0


From 31735d26fb91bbc41aa298798d5e097d5f57a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:28 +0000
Subject: [PATCH 85/96] fix: acomp and def_art gave the alternation marks of a
 ctm file a time

---
 src/acomp/acomp.pl     | 4 ++++
 src/def_art/def_art.pl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 16a6e8f..66d9540 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -97,6 +97,10 @@ while (<IN>){
 	local($conf);
 
 	@ctm = split(/\s+/,$_);
+	if ($ctm[2] eq "*") {   ### an alternation mark
+	    print OUT "$_\n";
+	    next;
+	}
 	if ($#ctm <= 4) { $conf = "" ; } else { $conf = $ctm[5]; }
 
 	$newt = &String_LU($ctm[4]);
diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index 3ae0cac..0beab39 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -91,6 +91,10 @@ while (<IN>){
 	local($conf);
 
 	@ctm = split(/\s+/,$_);
+	if ($ctm[2] eq "*") {   ### an alternation mark
+	    print OUT "$_\n";
+	    next;
+	}
 	if ($#ctm <= 4) { $conf = "" ; } else { $conf = $ctm[5]; }
 
 	$newt = &String_LU($ctm[4]);
-- 
2.43.0


From 83752cfa4ad369e034bb0a6af5be6a094318fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 86/96] fix: text2idngram lost words at the end of a text
 without newline, and n-grams merged in several passes

---
 src/sclite/slm_v2/src/idngram.h      |  7 +++++--
 src/sclite/slm_v2/src/text2idngram.c | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/sclite/slm_v2/src/idngram.h b/src/sclite/slm_v2/src/idngram.h
index 2b6bb11..046284f 100644
--- a/src/sclite/slm_v2/src/idngram.h
+++ b/src/sclite/slm_v2/src/idngram.h
@@ -153,10 +153,13 @@ void merge_tempfiles (int start_file,
     new_temp_file = rr_oopen(new_temp_filename);
     merge_tempfiles(start_file,start_file+max_files-1,
 		    temp_file_root,temp_file_ext,max_files,
-		    tempfiles_directory,new_temp_file,write_ascii,0);
+		    tempfiles_directory,new_temp_file,0,0);
+    /* the merged file is read back, as a binary one, like the others */
+    rr_oclose(new_temp_file);
     merge_tempfiles(start_file+max_files,end_file+1,
 		    temp_file_root,temp_file_ext,max_files,
-		    tempfiles_directory,outfile,write_ascii,0);
+		    tempfiles_directory,outfile,write_ascii,fof_size);
+    return;
   }
   
   else {
diff --git a/src/sclite/slm_v2/src/text2idngram.c b/src/sclite/slm_v2/src/text2idngram.c
index bcf76a9..9fba6bf 100644
--- a/src/sclite/slm_v2/src/text2idngram.c
+++ b/src/sclite/slm_v2/src/text2idngram.c
@@ -71,6 +71,7 @@ void main(int argc, char *argv[]) {
 
   int buffer_size;
   int position_in_buffer;
+  flag more_text;
   int number_of_tempfiles;
   int max_files;
   int fof_size;
@@ -241,17 +242,21 @@ void main(int argc, char *argv[]) {
   position_in_buffer = 0;
 
   for (i=0;i<=n-1;i++) {
-    get_word(stdin,temp_word);
+    if (get_word(stdin,temp_word) != 1) {
+      quit(-1,"text2idngram : Error : The text has fewer than %d words.\n",n);
+    }
     add_to_buffer(index2(&vocabulary,temp_word),0,i,buffer);
   }
 
-  while (!rr_feof(stdin)) {
+  more_text = 1;
+
+  while (more_text) {
 
     /* Fill up the buffer */
 
     pc_message(verbosity,2,"Reading text into the n-gram buffer...\n");
     pc_message(verbosity,2,"20,000 n-grams processed for each \".\", 1,000,000 for each line.\n");
-    while ((position_in_buffer<buffer_size) && (!rr_feof(stdin))) {
+    while ((position_in_buffer<buffer_size) && more_text) {
       position_in_buffer++;
       if (position_in_buffer % 20000 == 0) {
 	if (position_in_buffer % 1000000 == 0) {
@@ -269,6 +274,9 @@ void main(int argc, char *argv[]) {
 	add_to_buffer(index2(&vocabulary,temp_word),position_in_buffer,
 		      n-1,buffer);
       }
+      else {
+	more_text = 0;
+      }
     }
 
     for (i=0;i<=n-1;i++) {
@@ -305,7 +313,7 @@ void main(int argc, char *argv[]) {
 
     for (i=1;i<=position_in_buffer;i++) {
  
-      if (!compare_ngrams(temp_ngram,&buffer[i*n])) {
+      if (i < position_in_buffer && !compare_ngrams(temp_ngram,&buffer[i*n])) {
 	temp_count++;
       }
       else {
-- 
2.43.0


From 42bbd68017bc1d514212b8744ad5d4ea99ffdb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 87/96] fix: language model building read past short names and
 vocabularies, mis-sized its tables and took negative linear discounts

---
 src/sclite/slm_v2/src/bo_ng_prob.c       |  4 +--
 src/sclite/slm_v2/src/idngram2lm.c       | 35 +++++++++++++++++-------
 src/sclite/slm_v2/src/rr_libs/rr_iopen.c |  4 +--
 src/sclite/slm_v2/src/rr_libs/rr_oopen.c |  4 +--
 src/sclite/slm_v2/src/stats.c            | 13 +++++++--
 src/sclite/slm_v2/src/write_lms.c        |  6 +++-
 6 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/sclite/slm_v2/src/bo_ng_prob.c b/src/sclite/slm_v2/src/bo_ng_prob.c
index e3de0ea..267908c 100644
--- a/src/sclite/slm_v2/src/bo_ng_prob.c
+++ b/src/sclite/slm_v2/src/bo_ng_prob.c
@@ -120,7 +120,7 @@ void bo_ng_prob(int context_length,
 			     ng_index[length_exists-1]+1)-1;
 	  }
 	  else {
-	    ng_end = ng->num_kgrams[1];
+	    ng_end = ng->num_kgrams[1]-1;
 	  }
 	}
 	else {
@@ -132,7 +132,7 @@ void bo_ng_prob(int context_length,
 			     ng_index[length_exists-1]+1)-1;
 	  }
 	  else {
-	    ng_end = ng->num_kgrams[length_exists];
+	    ng_end = ng->num_kgrams[length_exists]-1;
 	  }
 	}
 
diff --git a/src/sclite/slm_v2/src/idngram2lm.c b/src/sclite/slm_v2/src/idngram2lm.c
index 76f3d61..0d5058e 100644
--- a/src/sclite/slm_v2/src/idngram2lm.c
+++ b/src/sclite/slm_v2/src/idngram2lm.c
@@ -28,6 +28,12 @@ results obtained from use of this software.
 #include <string.h>
 
 
+static int name_ends_with(char *name, char *extension) {
+
+  return(strlen(name) >= strlen(extension) &&
+	 !strcmp(&name[strlen(name)-strlen(extension)],extension));
+}
+
 void main (int argc, char **argv) {
 
   int i,j;
@@ -47,6 +53,8 @@ void main (int argc, char **argv) {
   int *ng_count; /* Array indicating the number of occurrances of 
 		    the current 1-gram, 2-gram, ... ,n-gram */  
   int nlines;
+  int n_ngrams; /* The number of n-grams read, including those which
+		   begin with a context cue */
   int pos_of_novelty;
   int prev_id1;
   flag contains_unks;
@@ -98,10 +106,10 @@ void main (int argc, char **argv) {
     quit(-1,"Error: Value of n must be positive.\n");
   }
 
-  ng.cutoffs = (cutoff_t *) pc_shortarrayarg(&argc, argv, "-cutoffs",ng.n-1,ng.n-1);
+  ng.cutoffs = (cutoff_t *) pc_shortarrayarg(&argc, argv, "-cutoffs",ng.n-1,ng.n);
 
   if (ng.cutoffs == NULL) {
-    ng.cutoffs = (cutoff_t *) rr_calloc(ng.n-1,sizeof(cutoff_t));
+    ng.cutoffs = (cutoff_t *) rr_calloc(ng.n,sizeof(cutoff_t));
   }
 
   for (i=0;i<=ng.n-3;i++) {
@@ -161,7 +169,7 @@ void main (int argc, char **argv) {
   bin_flag = pc_flagarg(&argc,argv,"-bin_input");
 
   if (ascii_flag || 
-      !strcmp(&ng.id_gram_filename[strlen(ng.id_gram_filename)-6],".ascii")) {
+      name_ends_with(ng.id_gram_filename,".ascii")) {
     is_ascii = 1;
   }
   else {
@@ -173,14 +181,14 @@ void main (int argc, char **argv) {
       quit(-1,"Error : Specify only one of -bin_input and -ascii_input\n");
     }
     
-    if (!strcmp(&ng.id_gram_filename[strlen(ng.id_gram_filename)-4],".bin")) {
+    if (name_ends_with(ng.id_gram_filename,".bin")) {
       quit(-1,"Error : -ascii_input flag specified, but input file has .bin extention.\n");
     }
     
   }
   
   if (bin_flag && 
-      !strcmp(&ng.id_gram_filename[strlen(ng.id_gram_filename)-6],".ascii") ) {
+      name_ends_with(ng.id_gram_filename,".ascii") ) {
     quit(-1,"Error : -bin_input flag specified, but input file has .ascii extention.\n");
   }
   
@@ -554,7 +562,7 @@ void main (int argc, char **argv) {
 
   if (!ng.four_byte_counts) {
     for (i=0;i<=ng.n-1;i++) {
-      ng.count_table[i] = (count_t *) rr_calloc(ng.count_table_size,
+      ng.count_table[i] = (count_t *) rr_calloc(ng.count_table_size+1,
 						sizeof(count_t));
     }
     ng.marg_counts = (count_ind_t *) rr_malloc(sizeof(count_ind_t)*
@@ -697,7 +705,7 @@ void main (int argc, char **argv) {
 
     break;
   case WITTEN_BELL:
-    ng.freq_of_freq[0] = (int *) rr_calloc(1,sizeof(int));
+    ng.freq_of_freq[0] = (int *) rr_calloc(2,sizeof(int));
     break;
 
   }
@@ -720,6 +728,7 @@ void main (int argc, char **argv) {
   ng_count = (count_t *) rr_calloc(ng.n,sizeof(count_t));
   nlines = 1;
   ng.n_unigrams = 0;
+  n_ngrams = 0;
   
   /* Process first n-gram */
   
@@ -981,7 +990,8 @@ void main (int argc, char **argv) {
 	    ng.freq_of_freq[0][ng_count[0]]++;
 	  }
 
-	  if (ng.discounting_method == LINEAR && ng_count[0] == 1) {
+	  if (ng.discounting_method == LINEAR && ng_count[0] == 1 &&
+	      !ng.context_cue[previous_ngram.id_array[0]]) {
 	    ng.freq_of_freq[0][1]++;
 	  }
 
@@ -989,6 +999,8 @@ void main (int argc, char **argv) {
 	    ng.freq_of_freq[0][ng_count[0]]++;
 	  }
 
+	  n_ngrams += ng_count[0];
+
 	  if (!ng.context_cue[previous_ngram.id_array[0]]) {
 	    ng.n_unigrams += ng_count[0];
 
@@ -1070,7 +1082,8 @@ void main (int argc, char **argv) {
   }
 
 
-  if (ng.discounting_method == LINEAR && ng_count[0] == 1) {
+  if (ng.discounting_method == LINEAR && ng_count[0] == 1 &&
+      !ng.context_cue[current_ngram.id_array[0]]) {
     ng.freq_of_freq[0][1]++;
   }
 
@@ -1078,6 +1091,8 @@ void main (int argc, char **argv) {
     ng.freq_of_freq[0][ng_count[0]]++;
   }
 
+  n_ngrams += ng_count[0];
+
   if (!ng.context_cue[current_ngram.id_array[0]]) {
     ng.n_unigrams += ng_count[0];
 
@@ -1237,7 +1252,7 @@ void main (int argc, char **argv) {
     pc_message(verbosity,1,"Linear discounting ratios :\n");
     for (i=0;i<=ng.n-1;i++) {
       ng.lin_disc_ratio[i] = 1 - ( (float) ng.freq_of_freq[i][1]/
-				   (float) ng.n_unigrams);
+				   (float) (i == 0 ? ng.n_unigrams : n_ngrams));
       pc_message(verbosity,1,"%d-gram : %g\n",i+1,ng.lin_disc_ratio[i]);
     }
 
diff --git a/src/sclite/slm_v2/src/rr_libs/rr_iopen.c b/src/sclite/slm_v2/src/rr_libs/rr_iopen.c
index 6c01b6d..eb4811d 100644
--- a/src/sclite/slm_v2/src/rr_libs/rr_iopen.c
+++ b/src/sclite/slm_v2/src/rr_libs/rr_iopen.c
@@ -50,14 +50,14 @@ FILE *rr_iopen(char *path)
   if (lpath > sizeof(pipe) - strlen("cat | gunzip ") - 4)
     quit(-1,"%s: pathname '%s' is too long\n",rname,path);
 
-  if (strcmp(&path[lpath-2],".Z")==0) {
+  if (lpath >= 2 && strcmp(&path[lpath-2],".Z")==0) {
      /* popen() does not report error if file doesn't exist, so: */
      if (!rr_fexists(path)) quit(-1,"%s: file '%s' not found\n",rname,path);
      sprintf(pipe,"zcat %s",path);
      goto Z;
   }
 
-  else if (strcmp(&path[lpath-3],".gz")==0) {
+  else if (lpath >= 3 && strcmp(&path[lpath-3],".gz")==0) {
      /* popen() does not report error if file doesn't exist, so: */
      if (!rr_fexists(path)) quit(-1,"%s: file '%s' not found\n",rname,path);
      sprintf(pipe,"cat %s | gunzip",path);
diff --git a/src/sclite/slm_v2/src/rr_libs/rr_oopen.c b/src/sclite/slm_v2/src/rr_libs/rr_oopen.c
index 9579eec..530ca99 100644
--- a/src/sclite/slm_v2/src/rr_libs/rr_oopen.c
+++ b/src/sclite/slm_v2/src/rr_libs/rr_oopen.c
@@ -46,7 +46,7 @@ FILE *rr_oopen(char *path)
   if (strcmp(path,"-")==0) return(stdout);
 
   lpath = strlen(path);
-  if (strcmp(&path[lpath-2],".Z")==0) {
+  if (lpath >= 2 && strcmp(&path[lpath-2],".Z")==0) {
     if (lpath > sizeof(pipe) - strlen("compress >!  ") - 4)
       quit(-1,"%s: pathname '%s' is too long\n",rname,path);
      sprintf(pipe,"compress > %s",path);
@@ -55,7 +55,7 @@ FILE *rr_oopen(char *path)
      is_Z = 1;
   }
   else {
-    if (strcmp(&path[lpath-3],".gz")==0) {
+    if (lpath >= 3 && strcmp(&path[lpath-3],".gz")==0) {
       if (lpath > sizeof(pipe) - strlen("gzip >!  ") -4)
 	quit(-1,"%s: pathname '%s' is too long\n",rname,path);
       sprintf(pipe,"gzip > %s",path);
diff --git a/src/sclite/slm_v2/src/stats.c b/src/sclite/slm_v2/src/stats.c
index 1482488..2b08649 100644
--- a/src/sclite/slm_v2/src/stats.c
+++ b/src/sclite/slm_v2/src/stats.c
@@ -25,7 +25,11 @@ void display_stats(ng_t *ng) {
   int j;
 
   fprintf(stderr,"This is a %d-gram language model, based on a vocabulary of %d words,\n",ng->n,ng->vocab_size);
-  fprintf(stderr,"  which begins \"%s\", \"%s\", \"%s\"...\n",ng->vocab[1],ng->vocab[2],ng->vocab[3]);
+  fprintf(stderr,"  which begins ");
+  for (i=1;i<=3 && i<=ng->vocab_size;i++) {
+    fprintf(stderr,"%s\"%s\"",i > 1 ? ", " : "",ng->vocab[i]);
+  }
+  fprintf(stderr,"...\n");
 
   if (ng->no_of_ccs == 1) {
     fprintf(stderr,"There is 1 context cue.");
@@ -118,8 +122,11 @@ void display_arpa_stats(arpa_lm_t *arpa_ng) {
   int i;
 
   fprintf(stderr,"This is a %d-gram language model, based on a vocabulary of %d words,\n",arpa_ng->n,arpa_ng->vocab_size);
-  fprintf(stderr,"  which begins \"%s\", \"%s\", \"%s\"...\n",
-	  arpa_ng->vocab[1],arpa_ng->vocab[2],arpa_ng->vocab[3]);
+  fprintf(stderr,"  which begins ");
+  for (i=1;i<=3 && i<=arpa_ng->vocab_size;i++) {
+    fprintf(stderr,"%s\"%s\"",i > 1 ? ", " : "",arpa_ng->vocab[i]);
+  }
+  fprintf(stderr,"...\n");
   
   if (arpa_ng->no_of_ccs == 1) {
     fprintf(stderr,"There is 1 context cue.");
diff --git a/src/sclite/slm_v2/src/write_lms.c b/src/sclite/slm_v2/src/write_lms.c
index 11b3c0b..78de905 100644
--- a/src/sclite/slm_v2/src/write_lms.c
+++ b/src/sclite/slm_v2/src/write_lms.c
@@ -84,7 +84,11 @@ log10_bo_biprob(WAS | ZWEIG)  ZWEIG  WAS   log10_bialpha(ZWEIG,WAS)
   fprintf(ng->arpa_fp,"===============     Statistical Language Modeling Toolkit     ===============\n"); 
   fprintf(ng->arpa_fp,"=============================================================================\n");
   fprintf(ng->arpa_fp,"This is a %d-gram language model, based on a vocabulary of %d words,\n",ng->n,ng->vocab_size);
-  fprintf(ng->arpa_fp,"  which begins \"%s\", \"%s\", \"%s\"...\n",ng->vocab[1],ng->vocab[2],ng->vocab[3]);
+  fprintf(ng->arpa_fp,"  which begins ");
+  for (i=1;i<=3 && i<=ng->vocab_size;i++) {
+    fprintf(ng->arpa_fp,"%s\"%s\"",i > 1 ? ", " : "",ng->vocab[i]);
+  }
+  fprintf(ng->arpa_fp,"...\n");
   if (ng->vocab_type == CLOSED_VOCAB) {
     fprintf(ng->arpa_fp,"This is a CLOSED-vocabulary model\n");
     fprintf(ng->arpa_fp,"  (OOVs eliminated from training data and are forbidden in test data)\n");
-- 
2.43.0


From ce0a02f34e824963d5136e5c170a3cb87aa0842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:39 +0000
Subject: [PATCH 88/96] fix: long words, file names and labels overran the
 fixed buffers of sclite's readers

---
 src/sclite/align.c    | 19 ++++++++++++++++---
 src/sclite/ctm2ctm.c  |  5 ++++-
 src/sclite/fillmrks.c | 43 ++++++++++++++++++++++++++++---------------
 src/sclite/stm.c      |  4 ++--
 src/sclite/stm2ctm.c  |  8 +++++---
 src/sclite/text.c     |  5 +++--
 6 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 5c50ee6..c098178 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -857,10 +857,10 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
 	rind = ind - refid;
 
 	/* Write each individual word to a file */
-	if (TEXT_strlen(reftran[rind]) > tbuf_len+1){
+	if (TEXT_strlen(reftran[rind]) + 1 > tbuf_len){
 	    free_singarr(tbuf,TEXT);
 	    tbuf = TEXT_strdup(reftran[rind]);
-	    tbuf_len = TEXT_strlen(tbuf);
+	    tbuf_len = TEXT_strlen(tbuf) + 1;
 	} else
 	    TEXT_strcpy(tbuf,reftran[rind]);
 
@@ -886,11 +886,24 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
 }
 
 void process_diff_line(TEXT *diff_out, PATH *path, TEXT **firsttoken){
-    static TEXT s1[100],s2[100],s3[100];
+    static TEXT *s1 = (TEXT *)0, *s2, *s3;
+    static int len = 0;
     int iret;
     WORD *rwd, *hwd;
 
     check_space_in_PATH(path);
+    /* none of the three can be longer than the line */
+    if (TEXT_strlen(diff_out) + 1 > len){
+	if (s1 != (TEXT *)0) {
+	    free_singarr(s1,TEXT);
+	    free_singarr(s2,TEXT);
+	    free_singarr(s3,TEXT);
+	}
+	len = TEXT_strlen(diff_out) + 100;
+	alloc_singarr(s1,len,TEXT);
+	alloc_singarr(s2,len,TEXT);
+	alloc_singarr(s3,len,TEXT);
+    }
     *s1 = *s2 = *s3 = '\0';
     iret = sscanf((char *)diff_out,
 		  "%s %s %s",(char *)s1,(char *)s2,(char *)s3);
diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 5f59966..073bf13 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -19,7 +19,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
     int ref_opp_end, hyp_opp_end, ref_opp_begin, hyp_opp_begin;
     int dbg = TRUE;
     int chunk;
-    char uttid[100];
+    char *uttid;
     int spkr;
     int number_of_channels;
     SCORES *scor;
@@ -206,6 +206,8 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		removals = 0;
 
 		/* create the utterance ID */
+		alloc_singarr(uttid,strlen(ref->word[ref_chan_begin].conv) +
+			      strlen(ref->word[ref_chan_begin].turn) + 20,char);
 		sprintf(uttid,"(%s-%s-%04d)",ref->word[ref_chan_begin].conv,
 			ref->word[ref_chan_begin].turn,chunk);
 
@@ -257,6 +259,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 					      FALSE, case_sense, 
 					      (char *)uttid, fcorr,
 					      opt_del, time_align, wwl, lm_file);
+		free_singarr(uttid,char);
 		BF_SET(path->attrib,PA_HYP_WTIMES);
 		BF_SET(path->attrib,PA_REF_WTIMES);
 		if (ref->has_conf) BF_SET(path->attrib,PA_REF_CONF);
diff --git a/src/sclite/fillmrks.c b/src/sclite/fillmrks.c
index f006d64..0c3b012 100644
--- a/src/sclite/fillmrks.c
+++ b/src/sclite/fillmrks.c
@@ -66,6 +66,7 @@ void fill_WTOKE_structure(WTOKE_STR1 *ctm_segs, FILE *fp_ctm, char *ctm_file, in
    static int in_buf_len = 2000;
        /* sxx[LINE_LENGTH], *sx    = &sxx[0];*/
    char *xconv, *xconf, *xsp, *side, *s2, *s3, *xcorr;
+   int field_len;
    double xt1, xdur;
    char comment_char = ';';
    boolean in_overlap, in_comment, in_unsure, in_mispron, in_crosstalk;
@@ -73,13 +74,15 @@ void fill_WTOKE_structure(WTOKE_STR1 *ctm_segs, FILE *fp_ctm, char *ctm_file, in
 /* code: */
 db_enter_msg(proc,0); /* debug only */
 
-   alloc_singarr(xconv,LINE_LENGTH,char);
-   alloc_singarr(xconf,LINE_LENGTH,char);
-   alloc_singarr(xcorr,LINE_LENGTH,char);
-   alloc_singarr(xsp,LINE_LENGTH,char);
-   alloc_singarr(side,LINE_LENGTH,char);
-   alloc_singarr(s2,LINE_LENGTH,char);
-   alloc_singarr(s3,LINE_LENGTH,char);
+   /* no field can be longer than the line it is read from */
+   field_len = in_buf_len;
+   alloc_singarr(xconv,field_len,char);
+   alloc_singarr(xconf,field_len,char);
+   alloc_singarr(xcorr,field_len,char);
+   alloc_singarr(xsp,field_len,char);
+   alloc_singarr(side,field_len,char);
+   alloc_singarr(s2,field_len,char);
+   alloc_singarr(s3,field_len,char);
    
    /* allocate memory for the input buffer */
    alloc_singZ(in_buf,in_buf_len,TEXT,(TEXT)0);
@@ -119,7 +122,17 @@ db_enter_msg(proc,0); /* debug only */
 	   if (!case_sense)
 	       TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	   n += 1;
-	   *s2 = *s3 = *xconv = *xsp = *xconf = *xcorr = '\0';
+	   if (in_buf_len > field_len){
+	       field_len = in_buf_len;
+	       free_singarr(xconv,char);  alloc_singarr(xconv,field_len,char);
+	       free_singarr(xconf,char);  alloc_singarr(xconf,field_len,char);
+	       free_singarr(xcorr,char);  alloc_singarr(xcorr,field_len,char);
+	       free_singarr(xsp,char);  alloc_singarr(xsp,field_len,char);
+	       free_singarr(side,char);  alloc_singarr(side,field_len,char);
+	       free_singarr(s2,char);  alloc_singarr(s2,field_len,char);
+	       free_singarr(s3,char);  alloc_singarr(s3,field_len,char);
+	   }
+	   *s2 = *s3 = *xconv = *side = *xsp = *xconf = *xcorr = '\0';
 
 	   /* printf("WTOKE: %s  %d  %d\n",
 	      in_buf,TEXT_strlen(in_buf),strlen(in_buf)); */
@@ -131,19 +144,19 @@ db_enter_msg(proc,0); /* debug only */
 	     rp = TEXT_strtok((TEXT *)in_buf + TEXT_strspn(in_buf,
 							   (TEXT*)" \t"),
 			      (TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)xconv,rp,field_len-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)side,rp,field_len-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)s2,rp,field_len-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n"); 
-	       TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)s3,rp,field_len-1);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH);
+	       if (rp != NULL) TEXT_strBcpy((TEXT *)xsp,rp,field_len-1);
 	       if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		 TEXT_strBcpy((TEXT *)xconf,rp,LINE_LENGTH);
+		 TEXT_strBcpy((TEXT *)xconf,rp,field_len-1);
 		 if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		   TEXT_strBcpy((TEXT *)xcorr,rp,LINE_LENGTH);
+		   TEXT_strBcpy((TEXT *)xcorr,rp,field_len-1);
 		 }
 	       }
 	   }	    
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index b0afbf5..c4f72e4 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -184,10 +184,10 @@ void dump_STM_words(STM *stm,int s, int e, char *file){
 
     for (i=s; i<=e; i++){
 	/* Write each individual word to a file */
-	if (TEXT_strlen(stm->seg[i].text) > tbuf_len+1){
+	if (TEXT_strlen(stm->seg[i].text) + 1 > tbuf_len){
 	    free_singarr(tbuf,TEXT);
 	    tbuf = TEXT_strdup(stm->seg[i].text);
-	    tbuf_len = TEXT_strlen(tbuf);
+	    tbuf_len = TEXT_strlen(tbuf) + 1;
 	} else
 	    TEXT_strcpy(tbuf,stm->seg[i].text);
 
diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index ed540f1..82584e9 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -415,7 +415,7 @@ SCORES *align_ctm_to_stm_dp(char *ref_file, char *hyp_file, char *set_title, int
         locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hend);
         locate_STM_boundary(stm, stm->s, 1, 1, &rend);
         
-        if (feedback >= 1)
+        if (feedback >= 1 && stm->s < stm->num)
     	    printf("    Performing alignments for file '%s'.\n",
 	       stm->seg[stm->s].file);
         if (db >= 5){
@@ -424,8 +424,10 @@ SCORES *align_ctm_to_stm_dp(char *ref_file, char *hyp_file, char *set_title, int
         }
         
         if (hyp_segs->s > hyp_segs->n){
-           fprintf(stderr,"%s: Hyp files ends before ref but continuing for ",proc);
-	   fprintf(stderr,"ref file/channel '%s' '%s'.\n",stm->seg[stm->s].file,stm->seg[stm->s].chan);           
+           if (stm->s < stm->num) {
+              fprintf(stderr,"%s: Hyp files ends before ref but continuing for ",proc);
+              fprintf(stderr,"ref file/channel '%s' '%s'.\n",stm->seg[stm->s].file,stm->seg[stm->s].chan);
+           }
         } else if (hyp_segs->s <= hyp_segs->n && stm->s > stm->num){
            fprintf(stderr,"%s: Error: Hyp file has more data than ref file, beginning at ",proc);
 	   fprintf(stderr,"hyp file/channel '%s' '%s'.\n",hyp_segs->word[hyp_segs->s].conv,hyp_segs->word[hyp_segs->s].turn);           
diff --git a/src/sclite/text.c b/src/sclite/text.c
index af34db0..1c81241 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -1160,10 +1160,11 @@ TEXT *TEXT_str_to_master(TEXT *bufTEXT, int toLow){
 
         // hptr is the converted char
         c2 = TEXT_nbytes_of_char(hptr);
-        if (TEXT_strlen(STATIC_CASECONVTEXT) + c2 + 1> STATIC_CASECONVTEXT_SIZE){
+        while ((outP - (TEXT *)STATIC_CASECONVTEXT) + c2 + 1> STATIC_CASECONVTEXT_SIZE){
+          int used = outP - (TEXT *)STATIC_CASECONVTEXT;
           expand_singarr(STATIC_CASECONVTEXT, STATIC_CASECONVTEXT_SIZE, STATIC_CASECONVTEXT_SIZE, 1.5, TEXT);
           //printf("Expanded Now %d with %s\n",STATIC_CASECONVTEXT_SIZE, STATIC_CASECONVTEXT);
-          outP = (TEXT *)STATIC_CASECONVTEXT + TEXT_strlen(STATIC_CASECONVTEXT);
+          outP = (TEXT *)STATIC_CASECONVTEXT + used;
         }
         TEXT_strCcpy(outP, hptr, 1);
                      
-- 
2.43.0


From 4a6b2e8372c0463a9a736ae6c4bf3a3be413fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:09 +0000
Subject: [PATCH 89/96] fix: long titles and names overran the fixed buffers of
 the report generator

---
 src/sclite/rpg.c      | 36 ++++++++++++++++++------------------
 src/sclite/rsprintf.c |  4 ++--
 src/sclite/scores.c   | 27 +++++++++++++++++++++++++--
 src/sclite/wwscr_f.c  |  5 +++--
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/sclite/rpg.c b/src/sclite/rpg.c
index e987703..a78addb 100644
--- a/src/sclite/rpg.c
+++ b/src/sclite/rpg.c
@@ -21,7 +21,7 @@ static int static_rpt_dbg=0;
 static int static_parse_dbg=0;
 
 typedef struct column_definition_struct{
-    char format_str[100];
+    char format_str[500];
     int min_just_width;
     int num_col;
     int num_col_chars;
@@ -313,10 +313,17 @@ int Desc_set_justification(char *just_str)
 
 char *get_next_string_value(char **str, int width)
 {
-    static char buf[300];
+    static char *buf = (char *)0;
+    static int buf_len = 0;
     char *p;
     int x=0;
 
+    if (width + 1 > buf_len){
+	if (buf != (char *)0) free_singarr(buf,char);
+	buf_len = width + 301;
+	alloc_singarr(buf,buf_len,char);
+    }
+
     p = *str;
 
     for (x=0; (x < width) && (*p != '\0') && !(*p == '/' && *(p+1) == '/'); x++, p++)
@@ -344,14 +351,11 @@ void print_spaces(int n, FILE *fp)
 	fprintf(fp," ");
 }
 
-#define SPACES_LEN   300
 void Desc_dump_report(int space_pad, FILE *fp)
 {
     int c, r, x, text_width, c2, j;
     int *hit, column_width;
     char *p;
-    char fmt_str1[1000]; 
-    char *spaces="                                                                                                                                                                                                                                                                                                            ";
     char **desc_column_ptr;
     int *desc_column_size;
     int *desc_column_text_size;
@@ -661,29 +665,25 @@ void Desc_dump_report(int space_pad, FILE *fp)
 		    switch (rpgstr->col_defs[current_just].col_just[c]){
 		      case 'c':
 		      case 'C':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%%ds%s", spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,
-				center(get_next_string_value(&(desc_column_ptr[c]),text_width),text_width));
+			fprintf(fp,"%*s%*s%*s",(column_width-text_width)/2,"",text_width,
+				center(get_next_string_value(&(desc_column_ptr[c]),text_width),text_width),
+				column_width-text_width - ((column_width-text_width)/2),"");
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
 		      case 'r':
 		      case 'R':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%%ds%s",spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			fprintf(fp,"%*s%*s%*s",(column_width-text_width)/2,"",text_width,
+				get_next_string_value(&(desc_column_ptr[c]),text_width),
+				column_width-text_width - ((column_width-text_width)/2),"");
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
 		      case 'l':
 		      case 'L':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%-%ds%s",spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			fprintf(fp,"%*s%-*s%*s",(column_width-text_width)/2,"",text_width,
+				get_next_string_value(&(desc_column_ptr[c]),text_width),
+				column_width-text_width - ((column_width-text_width)/2),"");
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
diff --git a/src/sclite/rsprintf.c b/src/sclite/rsprintf.c
index b13bca9..e43475c 100644
--- a/src/sclite/rsprintf.c
+++ b/src/sclite/rsprintf.c
@@ -27,8 +27,8 @@ va_dcl
     format = va_arg(args,char *);
 #endif
     /*    printf("rsprintf:  format: %s\n",format); */
-    vsprintf(static_message_buffer,format,args);
-    if (strlen(static_message_buffer) > 10000){
+    if (vsnprintf(static_message_buffer,sizeof(static_message_buffer),format,args) >=
+	(int)sizeof(static_message_buffer)){
       fprintf(stderr,"Error: rsprintf's internal buffer is too small.  increase the size\n");
       exit (1);
     }
diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index db999c7..8c6bedb 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -136,6 +136,15 @@ void dump_SCORES_alignments(SCORES *sc, FILE *fp, int lw, int full){
     fprintf(fp,"\n");
 }
 
+/* the most space formatWordForSGML can need: every character may be escaped */
+static int lengthOfWordForSGML(WORD *word){
+  if (word == (WORD *)0) return 0;
+  return 2 * (TEXT_strlen(word->value) +
+	      ((word->tag1 != (TEXT *)0) ? TEXT_strlen(word->tag1) : 0) +
+	      ((word->tag2 != (TEXT *)0) ? TEXT_strlen(word->tag2) : 0)) +
+    2 * TEXT_strlen((TEXT *)WORD_SGML_SUB_WORD_SEP_STR) + 1;
+}
+
 TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
   TEXT_strcpy_escaped(buffer, word->value, WORD_SGML_SUB_WORD_SEP_CHR);
 
@@ -153,8 +162,20 @@ TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
 
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
     int i, p, w;
-    TEXT bufA[1000];
-    TEXT bufB[1000];
+    int buf_len = 1000, len;
+    TEXT *bufA, *bufB;
+
+    /* make the buffers big enough for the longest of the words */
+    for (i=0; i<sc->num_grp; i++)
+	for (p=0; p<sc->grp[i].num_path; p++)
+	    for (w=0; w<sc->grp[i].path[p]->num; w++) {
+		len = lengthOfWordForSGML((WORD *)sc->grp[i].path[p]->pset[w].a_ptr);
+		if (len > buf_len) buf_len = len;
+		len = lengthOfWordForSGML((WORD *)sc->grp[i].path[p]->pset[w].b_ptr);
+		if (len > buf_len) buf_len = len;
+	    }
+    alloc_singarr(bufA,buf_len,TEXT);
+    alloc_singarr(bufB,buf_len,TEXT);
 
     fprintf(fp,"<SYSTEM title=\"%s\"",sc->title);
     fprintf(fp," ref_fname=\"%s\"",sc->ref_fname);
@@ -343,6 +364,8 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     }
 
     fprintf(fp,"</SYSTEM>\n");
+    free_singarr(bufA,TEXT);
+    free_singarr(bufB,TEXT);
 }
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
diff --git a/src/sclite/wwscr_f.c b/src/sclite/wwscr_f.c
index 78d2b2e..eadaf32 100644
--- a/src/sclite/wwscr_f.c
+++ b/src/sclite/wwscr_f.c
@@ -255,12 +255,12 @@ static void make_speaker_summary(WWL_SCORE *wwlscore, FILE *fp)
 double Weight_wwl(TEXT *str, WWL *wwl)
 {
     double sum=0.0;
-    TEXT buffer[100], *p;
+    TEXT *buffer, *p;
 
     if (TEXT_strchr(str, '=') == (TEXT *)0)
       return (get_weight_from_WW(wwl, str));
 
-    TEXT_strcpy(buffer,str);
+    buffer = TEXT_strdup(str);
     /* Loop through each sub-word and compute the weight */
     /* printf("LOOK AT %s\n",buffer); */
     p = TEXT_strtok(buffer,(TEXT *)"=");
@@ -272,6 +272,7 @@ double Weight_wwl(TEXT *str, WWL *wwl)
 
 	p = TEXT_strtok(NULL,(TEXT *)"=");
     }
+    TEXT_free(buffer);
     return(sum);
 }
 
-- 
2.43.0


From a3dbf84d44c567918fc2db26177cf633ed240f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 90/96] fix: long system names overran the fixed buffers of
 sc_stats and its tests

---
 src/sclite/anovar.c   | 16 ++++++++--------
 src/sclite/rank.c     | 35 ++++++++++++++++++++++-------------
 src/sclite/sc_stats.c | 13 ++++++++++---
 src/sclite/sentmcn.c  |  4 +++-
 4 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index f48e803..b3f2817 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -448,22 +448,22 @@ static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_nam
     sprintf(name_format,"| %%-%ds ",max_trt_name_len);
 
     /* first line */
-    fprintf(fp,"%s|%s",pad,(hyphens+(hy_l-(max_trt_name_len+2))));
+    fprintf(fp,"%s|%s",pad,(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+2))));
     for (t=0; t<trt_num; t++)
-       fprintf(fp,"%s",(hyphens+(hy_l-(max_trt_name_len+3))));
+       fprintf(fp,"%s",(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+3))));
     fprintf(fp,"|\n");
 
     /* systems on top */
-    fprintf(fp,"%s|%s",pad,(spaces+(hy_l-(max_trt_name_len+2))));
+    fprintf(fp,"%s|%s",pad,(spaces+(hy_l-MIN(hy_l,max_trt_name_len+2))));
     for (t=0; t<trt_num; t++)
        fprintf(fp,name_format,trt_names[srt_ptr[t]]);
     fprintf(fp,"|\n"); 
 
     /* separation line */
-    fprintf(fp,"%s|%s+",pad,(hyphens+(hy_l-(max_trt_name_len+2))));
+    fprintf(fp,"%s|%s+",pad,(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+2))));
     for (t=0; t<trt_num-1; t++)
-       fprintf(fp,"%s",(hyphens+(hy_l-(max_trt_name_len+3))));
-    fprintf(fp,"%s|\n",(hyphens+(hy_l-(max_trt_name_len+2))));
+       fprintf(fp,"%s",(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+3))));
+    fprintf(fp,"%s|\n",(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+2))));
 
     /* systems */
     for (t=0; t<trt_num; t++){
@@ -486,9 +486,9 @@ static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_nam
     }
 
     /* last line */
-    fprintf(fp,"%s|%s",pad,(hyphens+(hy_l-(max_trt_name_len+2))));
+    fprintf(fp,"%s|%s",pad,(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+2))));
     for (t=0; t<trt_num; t++)
-       fprintf(fp,"%s",(hyphens+(hy_l-(max_trt_name_len+3))));
+       fprintf(fp,"%s",(hyphens+(hy_l-MIN(hy_l,max_trt_name_len+3))));
     fprintf(fp,"|\n");
 }
 
diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 89d017c..ff9f863 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -199,13 +199,16 @@ void dump_full_RANK_struct(RANK *rank, char *t_name, char *b_name, char *blk_lab
     double sum_blk;
 
     int i,j, *ts, *bs;
-    char mfmt[50], tfmt[50], trfmt[50];
+    char *mfmt, *tfmt, *trfmt;
 
     /* use temporary pointers to point to the sorted indexes arrays */
     ts =  rank->blk_srt_ind ;
     bs =  rank->trt_srt_ind ;
 
 
+    alloc_singarr(mfmt,2*rank->n_trt + 10,char);
+    alloc_singarr(tfmt,2*rank->n_trt + 10,char);
+    alloc_singarr(trfmt,2*rank->n_trt + 10,char);
     strcpy(mfmt,"ll");
     strcpy(tfmt,"la");
     strcpy(trfmt,"cc");
@@ -303,6 +306,9 @@ void dump_full_RANK_struct(RANK *rank, char *t_name, char *b_name, char *blk_lab
     Desc_dump_report(0,stdout);
 
     form_feed(stdout);
+    free_singarr(mfmt,char);
+    free_singarr(tfmt,char);
+    free_singarr(trfmt,char);
 }
 
 void print_n_winner_comp_matrix(RANK *rank, int **wins[], char *win_ids[], int win_cnt, int page_width,FILE *fp)
@@ -478,10 +484,13 @@ void print_composite_significance2(RANK *rank, int pr_width, int num_win, int **
     }
 
     if (matrix){
-	char title_fmt[100], row_fmt[100], header_fmt[100];
+	char *title_fmt, *row_fmt, *header_fmt;
 	int trt1, trt2;
 
 	/* build the titles format */
+	alloc_singarr(title_fmt,4*rank->n_trt + 10,char);
+	alloc_singarr(row_fmt,4*rank->n_trt + 10,char);
+	alloc_singarr(header_fmt,4*rank->n_trt + 10,char);
 	*title_fmt = *row_fmt = '\0';
 	strcpy(title_fmt,"c=c");
 	strcpy(row_fmt,"c=c");
@@ -640,6 +649,9 @@ void print_composite_significance2(RANK *rank, int pr_width, int num_win, int **
 			    "extreme as that actually found, is no more than p.                        ");
 
 	Desc_dump_report(1,fp);
+	free_singarr(title_fmt,char);
+	free_singarr(row_fmt,char);
+	free_singarr(header_fmt,char);
 
         /* print_n_winner_comp_matrix(rank,wins,win_str,num_win,pr_width,fp); */
     }
@@ -655,7 +667,7 @@ void print_n_winner_comp_report(RANK *rank, int ***wins, char **win_ids, char **
 
     int max_name_len=0, trt1, trt2, trt, t1, t2, i, wid;
     int max_win_ids_len=0, max_str_len=7, max_desc_len=0, pr_width=79;
-    char sysname_fmt[40], title_line[200], fname[200], *trtfile;
+    char sysname_fmt[40], *fname, *trtfile;
     FILE *fp;
 
     /* find the largest treat length */
@@ -674,13 +686,13 @@ void print_n_winner_comp_report(RANK *rank, int ***wins, char **win_ids, char **
     wid=0;
     sprintf(sysname_fmt," %%%ds ",max_name_len);
     pr_width = (max_name_len + 2) * (win_cnt + 1);
-    sprintf(title_line,"for the %s Test with other Systems:",testname);
-    pr_width = MAX(pr_width,strlen(title_line));
+    pr_width = MAX(pr_width,strlen(rsprintf("for the %s Test with other Systems:",testname)));
     pr_width = MAX(pr_width,max_desc_len+5+max_str_len);
 
     for (trt1=0; trt1< rank->n_trt ; trt1++){
 	if ((trtfile = strrchr(rank->trt_name[trt1],'/')) == NULL)
 	    trtfile = rank->trt_name[trt1];
+        alloc_singarr(fname,strlen(outdir) + strlen(rank->trt_name[trt1]) + 10,char);
         sprintf(fname,"%s%s%s.sts", outdir,
 		(strcmp(outdir,"")==0) ? "" : "/",
 		(strcmp(outdir,"")==0) ? rank->trt_name[trt1] : trtfile);
@@ -688,14 +700,11 @@ void print_n_winner_comp_report(RANK *rank, int ***wins, char **win_ids, char **
             fprintf(stderr,"Warning: Unable to open output file %s, using stdout\n",fname);
             fp=stdout;
         }
-        sprintf(title_line,"Summary of Statistical Significance Tests:");
-        fprintf(fp,"%s\n",center(title_line,pr_width));
-        sprintf(title_line,"Comparing the System");
-        fprintf(fp,"%s\n",center(title_line,pr_width));
-        sprintf(title_line,"%s",  rank->trt_name [ trt1 ] );
-        fprintf(fp,"%s\n",center(title_line,pr_width));
-        sprintf(title_line,"for the %s Test with other Systems:",testname);
-        fprintf(fp,"%s\n\n",center(title_line,pr_width));
+        free_singarr(fname,char);
+        fprintf(fp,"%s\n",center("Summary of Statistical Significance Tests:",pr_width));
+        fprintf(fp,"%s\n",center("Comparing the System",pr_width));
+        fprintf(fp,"%s\n",center(rank->trt_name [ trt1 ],pr_width));
+        fprintf(fp,"%s\n\n",center(rsprintf("for the %s Test with other Systems:",testname),pr_width));
        
         fprintf(fp,sysname_fmt,"");
         for (wid=0; wid<win_cnt; wid++)
diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index 8224981..e4546d9 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -120,8 +120,14 @@ void run_multi_sys(SCORES *scor[],int nscor,char *out_dir,int stats,int stats_ve
     int nwin=0, **winner[15];
     double **confidence[15];
     char *win_desc[15], *win_id[15], *stat_form_str=formula_str(stats_formula);
-    char outroot[200], *sign_str=(char *)0, *wilc_str=(char *)0;
-    char outname[200];
+    char *outroot, *sign_str=(char *)0, *wilc_str=(char *)0;
+    char *outname;
+    int outlen;
+
+    outlen = strlen(stats_out_name) +
+	((out_dir != (char *)0) ? strlen(out_dir) : 0) + 20;
+    alloc_singarr(outroot,outlen,char);
+    alloc_singarr(outname,outlen,char);
 
     if (feedback >= 1)
 	printf("Beginning Multi-System comparisons and reports\n");
@@ -295,7 +301,8 @@ void run_multi_sys(SCORES *scor[],int nscor,char *out_dir,int stats,int stats_ve
     }
     if (sign_str != (char *)0) free(sign_str);
     if (wilc_str != (char *)0) free(wilc_str);
-
+    free_singarr(outroot,char);
+    free_singarr(outname,char);
 }
 
 void proc_arcs(int argc, char **argv, char *prog, char **pralign, int *npralign, int *pipein, int *feedback, char **out_dir, int *stats, int *stats_verbose, int *stats_unified, int *stats_graphs, char **stats_out_name, char **stats_formula, char **stats_test_name, int *reports, int *linewidth){
diff --git a/src/sclite/sentmcn.c b/src/sclite/sentmcn.c
index 4ab436f..e35357b 100644
--- a/src/sclite/sentmcn.c
+++ b/src/sclite/sentmcn.c
@@ -271,7 +271,7 @@ static int perform_peregoy_method(int **table, int verbosely,FILE *fp, double *c
 /********************************************************************/
 static void print_compare_matrix_for_sent_M(SCORES *scor[], int nscor, int **winner, double **conf, char *tname, char *matrix_name,FILE *fp)
 {
-    char fmt[50];
+    char *fmt;
     int i,j,sys,spkr,snt, *corr_arr;
 
     alloc_singarr(corr_arr,nscor,int);
@@ -285,6 +285,7 @@ static void print_compare_matrix_for_sent_M(SCORES *scor[], int nscor, int **win
 		                 scor[sys]->grp[spkr].serr;
     }
 
+    alloc_singarr(fmt,2*nscor + 2,char);
     strcpy(fmt,"c");
     for (i=0; i<nscor; i++) strcat(fmt,"|c");
 
@@ -329,6 +330,7 @@ static void print_compare_matrix_for_sent_M(SCORES *scor[], int nscor, int **win
 	Desc_flush_iterated_row();
     }
     Desc_dump_report(1,fp);
+    free_singarr(fmt,char);
     free_singarr(corr_arr,int);
 }
 
-- 
2.43.0


From f2eccbb88c132ee8541411dadabcb5d918b8f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 91/96] fix: rover and sclite took more hypothesis files than
 their arrays hold

---
 src/sclite/rover.c  | 1 +
 src/sclite/sclite.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 08b90c2..9d3407f 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -234,6 +234,7 @@ void proc_args(int argc, char **argv, char *prog, char **hname, char **hfmt, int
 	} else if (strcmp(argv[opt],"-h") == 0){
 	    if (argc < opt + 2) do_exit("Not enough Hyp arguments",prog,1);
 	    if (*(argv[opt+1]) == '-') do_exit("Req'd Hyp File name",prog,1);
+	    if (*nhyps >= MAX_HYPS) do_exit("Too many Hyp files",prog,1);
 	    hname[*nhyps] = argv[++opt];
 	    if (argc >= opt + 2 && *(argv[opt+1]) != '-') 
 		hfmt[*nhyps]  = argv[++opt];
diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 076a22b..e62c6ae 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -107,7 +107,7 @@ int main(int argc, char **argv){
     int conf_outputs;
     int feedback;
     int use_diff;
-    SCORES *scor[MAX_HYPS];
+    SCORES *scor[2*MAX_HYPS];  /* those piped in and those aligned here */
     int case_sense, nsc;
     int char_align;
     int pipeout;
@@ -433,6 +433,7 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
 	} else if (strcmp(argv[opt],"-h") == 0){
 	    if (argc < opt + 2) do_exit("Not enough Hyp arguments",prog,1);
 	    if (*(argv[opt+1]) == '-') do_exit("Req'd Hyp File name",prog,1);
+	    if (*nhyps >= MAX_HYPS) do_exit("Too many Hyp files",prog,1);
 	    hname[*nhyps] = argv[++opt];
 	    if (argc >= opt + 2 && *(argv[opt+1]) != '-') 
 		hfmt[*nhyps]  = argv[++opt];
-- 
2.43.0


From f56ec978ae5891a18254e5018c0ae2087cf1937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:23 +0000
Subject: [PATCH 92/96] fix: two sclite -d runs at once could use the same
 temporary files

---
 src/sclite/align.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index c098178..26a4cd0 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -966,22 +966,22 @@ static void process_diff_rest(FILE *fp_diff, TEXT **diff_out, int *diff_out_len,
 }
 
 void set_temp_files(char *refwords, char *hypwords){
-    int pid = getpid();
-    int max=30, n=0, fail;
-    struct stat fileinfo;
+    int fd;
 
-    do {
-	sprintf(refwords,"/tmp/ref.%d",pid+n);
-	sprintf(hypwords,"/tmp/hyp.%d",pid+n);
-	n++;
-	fail = (stat(refwords,&fileinfo) == 0) ||
-	       (stat(hypwords,&fileinfo) == 0);
-    } while (fail && (n < max));
-    if (fail){
-	fprintf(stderr,"Can't locate temp file names. Searched /tmp/ref.[%d-%d]\n",
-		pid,pid+n);
+    strcpy(refwords,"/tmp/ref.XXXXXX");
+    strcpy(hypwords,"/tmp/hyp.XXXXXX");
+    /* the files are created here, so that no other process can use the names */
+    if ((fd = mkstemp(refwords)) == -1){
+	fprintf(stderr,"Can't create temp file /tmp/ref.XXXXXX\n");
+	exit(1);
+    }
+    close(fd);
+    if ((fd = mkstemp(hypwords)) == -1){
+	fprintf(stderr,"Can't create temp file /tmp/hyp.XXXXXX\n");
+	unlink(refwords);
 	exit(1);
     }
+    close(fd);
 }
 
 SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, int keep_path, int case_sense, int feedback, enum id_types idt){
-- 
2.43.0


From 752304f0e5b7071d56c2371cea453c0d902775f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:49 +0000
Subject: [PATCH 93/96] fix: md-eval scored all metadata of a file that is
 wholly unscored

---
 src/md-eval/md-eval.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index efd6768..7e04643 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2124,7 +2124,7 @@ sub exclude_overlapping_speech_from_uem {
 	}
     }
 	    
-    return $uem_ex;
+    return $uem_ex ? $uem_ex : []; #(undefined would mean no UEM partition specification)
 }
 
 #################################
@@ -2241,7 +2241,7 @@ sub add_exclusion_zones_to_uem {
 	}
     }
 	    
-    return $uem_ex;
+    return $uem_ex ? $uem_ex : []; #(undefined would mean no UEM partition specification)
 }
 
 #################################
-- 
2.43.0


From da1b03d5b4c8fa583a2dd1df523629eaf1131162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:51 +0000
Subject: [PATCH 94/96] fix: range graphs of systems without a common speaker
 read before the arrays

---
 src/sclite/range.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index d691ffc..4052c2b 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -421,13 +421,16 @@ static void print_gnu_range_graph(RANK *rank, char *percent_desc, char *testname
 		sum += rank->pcts [ b ][ rank->blk_srt_ind [ t ]  ] ;
 	    }
     rank_double_arr(pctt, rank->n_blk ,ind,rnkk,INCREASING);
-	    if ( rank->n_blk  % 2 == 0) { /* handle the even arr len */
+	    if ( rank->n_blk  == 0) { /* no speaker in common */
+		medianval = 0.0;
+	    } else if ( rank->n_blk  % 2 == 0) { /* handle the even arr len */
 		medianval = (pctt[ind[ rank->n_blk  / 2]] + 
 			     pctt[ind[( rank->n_blk  / 2) - 1]]) / 2.0;
 	    } else { /* handle the odd arr len */
 		medianval = pctt[ind[ rank->n_blk  / 2]];
 	    }
-	    fprintf(fp_mean,"%d %f\n",t+1,sum / (double)(rank->n_blk ));
+	    fprintf(fp_mean,"%d %f\n",t+1,
+		    (rank->n_blk > 0) ? sum / (double)(rank->n_blk ) : 0.0);
 	    fprintf(fp_median,"%d %f\n",t+1,medianval);
 	    fprintf(fp_plt,"\"%s\" %d",rank->trt_name[rank->blk_srt_ind[t]],
 		    t+1);
@@ -580,13 +583,16 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 		sum += rank->pcts [ b ][ rank->blk_srt_ind [ t ]  ] ;
 	    }	
 	    rank_double_arr(pctt, rank->n_blk ,ind,rnkk,INCREASING);
-	    if ( rank->n_blk  % 2 == 0) { /* handle the even arr len */
+	    if ( rank->n_blk  == 0) { /* no speaker in common */
+		medianval = 0.0;
+	    } else if ( rank->n_blk  % 2 == 0) { /* handle the even arr len */
 		medianval = (pctt[ind[ rank->n_blk  / 2]] + 
 			     pctt[ind[( rank->n_blk  / 2) - 1]]) / 2.0;
 	    } else { /* handle the odd arr len */
 		medianval = pctt[ind[ rank->n_blk  / 2]];
 	    }
-	    fprintf(fp_mean,"%d %f\n",t+1,sum / (double)(rank->n_blk ));
+	    fprintf(fp_mean,"%d %f\n",t+1,
+		    (rank->n_blk > 0) ? sum / (double)(rank->n_blk ) : 0.0);
 	    fprintf(fp_median,"%d %f\n",t+1,medianval);
 	    fprintf(fp_plt,"\"%s\" %d",rank->trt_name[rank->blk_srt_ind[t]],
 		    t+1);
-- 
2.43.0


From 65bc059f04b383b6a1e22935fa1db4e619af37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:34 +0000
Subject: [PATCH 95/96] fix: a probability of one, but for rounding, ended
 programs that use a language model

---
 src/sclite/slm_v2/src/arpa_bo_ng_prob.c | 3 +++
 src/sclite/slm_v2/src/bo_ng_prob.c      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sclite/slm_v2/src/arpa_bo_ng_prob.c b/src/sclite/slm_v2/src/arpa_bo_ng_prob.c
index 4f4ab02..75a97f5 100644
--- a/src/sclite/slm_v2/src/arpa_bo_ng_prob.c
+++ b/src/sclite/slm_v2/src/arpa_bo_ng_prob.c
@@ -192,6 +192,9 @@ void arpa_bo_ng_prob(int context_length,
 
   }
 
+  if (*p_prob > 1.0 && *p_prob < 1.0001)   /* one, but for rounding */
+    *p_prob = 1.0;
+
   if (*p_prob > 1.0) {
     fprintf(stderr,"Error : P( %d | ",sought_ngram[context_length]);
     for (i=0;i<=context_length-1;i++) {
diff --git a/src/sclite/slm_v2/src/bo_ng_prob.c b/src/sclite/slm_v2/src/bo_ng_prob.c
index 267908c..c72780b 100644
--- a/src/sclite/slm_v2/src/bo_ng_prob.c
+++ b/src/sclite/slm_v2/src/bo_ng_prob.c
@@ -272,6 +272,9 @@ void bo_ng_prob(int context_length,
 
   }
 
+  if (*p_prob > 1.0 && *p_prob < 1.0001)   /* one, but for rounding */
+    *p_prob = 1.0;
+
   if (*p_prob > 1.0) {
     fprintf(stderr,"Error : P( %d | ",sought_ngram[context_length]);
     for (i=0;i<=context_length-1;i++) {
-- 
2.43.0


From e27d2d99c326ef200d8a783b3b49ab409fb3f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:35 +0000
Subject: [PATCH 96/96] fix: word-weight files with words of 1000 bytes or more
 aborted sclite

---
 src/sclite/wwscr_f.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/sclite/wwscr_f.c b/src/sclite/wwscr_f.c
index eadaf32..ea16dc1 100644
--- a/src/sclite/wwscr_f.c
+++ b/src/sclite/wwscr_f.c
@@ -327,7 +327,8 @@ int load_WWL(WWL **wwl, TEXT *filename)
     FILE *fp;
     WWL *twwl;
     WW **twords;
-    TEXT buff[MAX_BUFF_LEN], word[MAX_BUFF_LEN];
+    TEXT *buff = (TEXT *)0, *word = (TEXT *)0;
+    int buff_len = MAX_BUFF_LEN, word_len = MAX_BUFF_LEN;
     TEXT weight[MAX_W][MAX_BUFF_LEN], *p, *e;
     int line=0, count_guess, w, ret, min_weight=10;
 
@@ -373,11 +374,18 @@ int load_WWL(WWL **wwl, TEXT *filename)
         return 1;
       }
       
-      while (TEXT_fgets(buff,MAX_BUFF_LEN,fp) != NULL){
+      alloc_singZ(buff,buff_len,TEXT,NULL_TEXT);
+      alloc_singZ(word,word_len,TEXT,NULL_TEXT);
+      while (TEXT_ensure_fgets(&buff,&buff_len,fp) != NULL){
 	line++;
+	if (word_len < buff_len){ /* a word is no longer than its line */
+	  free_singarr(word,TEXT);
+	  word_len = buff_len;
+	  alloc_singZ(word,word_len,TEXT,NULL_TEXT);
+	}
         /* ignore comments */
         if (!TEXT_is_comment(buff) && !TEXT_is_empty(buff)){
-	  if ((ret=sscanf((char *)buff,"%s %s %s %s %s %s",word,weight[0], weight[1],
+	  if ((ret=sscanf((char *)buff,"%s %999s %999s %999s %999s %999s",word,weight[0], weight[1],
 			  weight[2], weight[3], weight[4])) < 2){
 	    fprintf(stderr,
 		    "Error: Unable to parse line %d of WWF file '%s'\n",
@@ -414,8 +422,10 @@ int load_WWL(WWL **wwl, TEXT *filename)
 	  }
 	  p += strlen("'Word Spelling'");
 	  /* parse out the description field */
-	  while ((p = TEXT_strchr(p,'\'')) != NULL){
-	    if ((e = TEXT_strchr(p+1,'\'')) != NULL){
+	  while (twwl->num_w < MAX_W && (p = TEXT_strchr(p,'\'')) != NULL){
+	    if ((e = TEXT_strchr(p+1,'\'')) == NULL)
+	      break;
+	    else {
 	      alloc_singZ(twwl->weight_desc[twwl->num_w],
 			  e-p +1,TEXT,'\0');
 	      TEXT_strBcpy(twwl->weight_desc[twwl->num_w],p+1,e-p-1);
@@ -437,6 +447,8 @@ int load_WWL(WWL **wwl, TEXT *filename)
 	}
       }
       fclose(fp);
+      free_singarr(buff,TEXT);
+      free_singarr(word,TEXT);
       if (twwl->num_w == 0){
 	if (min_weight < 2){
 	  fprintf(stderr,"Error: No wieghts defined in WWL '%s'\n",
-- 
2.43.0

