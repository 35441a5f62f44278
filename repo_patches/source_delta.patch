From c1be3f12c40ecf06acfe4f5276dc77fbf3d5824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 1/9] fix: treat undefined audienceId, segments and topics as
 absent when creating a contact

---
 src/contacts/contacts.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..283b17a 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -55,9 +55,12 @@ export class Contacts {
     payload: CreateContactOptions | LegacyCreateContactOptions,
     options: CreateContactRequestOptions = {},
   ): Promise<CreateContactResponse> {
+    const { audienceId, segments, topics } =
+      payload as Partial<LegacyCreateContactOptions> & CreateContactOptions;
+
     // Legacy create contact endpoint
-    if ('audienceId' in payload) {
-      if ('segments' in payload || 'topics' in payload) {
+    if (audienceId !== undefined) {
+      if (segments !== undefined || topics !== undefined) {
         return {
           data: null,
           headers: null,
@@ -71,7 +74,7 @@ export class Contacts {
       }
 
       const data = await this.resend.post<CreateContactResponseSuccess>(
-        `/audiences/${payload.audienceId}/contacts`,
+        `/audiences/${audienceId}/contacts`,
         {
           unsubscribed: payload.unsubscribed,
           email: payload.email,
@@ -93,8 +96,8 @@ export class Contacts {
         first_name: payload.firstName,
         last_name: payload.lastName,
         properties: payload.properties,
-        segments: payload.segments,
-        topics: payload.topics,
+        segments,
+        topics,
       },
       options,
     );
-- 
2.43.0


From 2f7f3d23c56f571a546d1f607406e766f38ed59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 2/9] fix: do not modify the emails passed to batch send

---
 src/batch/batch.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..e929033 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -1,5 +1,6 @@
 import type { EmailApiOptions } from '../common/interfaces/email-api-options.interface';
 import { parseEmailToApiOptions } from '../common/utils/parse-email-to-api-options';
+import type { CreateEmailOptions } from '../emails/interfaces/create-email-options.interface';
 import { render } from '../render';
 import type { Resend } from '../resend';
 import type {
@@ -26,12 +27,13 @@ export class Batch {
     const emails: EmailApiOptions[] = [];
 
     for (const email of payload) {
+      const body: CreateEmailOptions = { ...email };
+
       if (email.react) {
-        email.html = await render(email.react);
-        email.react = undefined;
+        body.html = await render(email.react);
       }
 
-      emails.push(parseEmailToApiOptions(email));
+      emails.push(parseEmailToApiOptions(body));
     }
 
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
-- 
2.43.0


From a1b8227c38480881fb31516eabd829cf83b5d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 3/9] fix: keep every form of request headers in batch send

---
 src/batch/batch.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index e929033..c6ac157 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -36,15 +36,17 @@ export class Batch {
       emails.push(parseEmailToApiOptions(body));
     }
 
+    const headers = new Headers(options?.headers ?? undefined);
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
         ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
+        headers,
       },
     );
 
-- 
2.43.0


From ec17f7bccf5ebca8b485575594eabfe9a365589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 4/9] fix: never report a failed request with an error that is
 not an object

---
 src/resend.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..d711bd2 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,14 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (
+            typeof parsedError !== 'object' ||
+            parsedError === null ||
+            Array.isArray(parsedError)
+          ) {
+            throw new SyntaxError('The error body is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 2517794da459b0281170c12de28d7638a2579214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 5/9] fix: return an error when the raw email cannot be
 downloaded or parsed while forwarding

---
 src/emails/receiving/receiving.ts | 67 ++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..d0034da 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -1,4 +1,4 @@
-import PostalMime from 'postal-mime';
+import PostalMime, { type Email } from 'postal-mime';
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
 import type { Resend } from '../../resend';
 import { Attachments } from './attachments/attachments';
@@ -125,25 +125,51 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    let rawEmailContent: string;
+    try {
+      const rawResponse = await fetch(email.raw.download_url);
+
+      if (!rawResponse.ok) {
+        return {
+          data: null,
+          error: {
+            name: 'application_error',
+            message: 'Failed to download raw email content',
+            statusCode: rawResponse.status,
+          },
+          headers: null,
+        };
+      }
 
-    if (!rawResponse.ok) {
+      rawEmailContent = await rawResponse.text();
+    } catch {
       return {
         data: null,
         error: {
           name: 'application_error',
           message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          statusCode: null,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
-    const parsed = await PostalMime.parse(rawEmailContent, {
-      attachmentEncoding: 'base64',
-    });
+    let parsed: Email;
+    try {
+      parsed = await PostalMime.parse(rawEmailContent, {
+        attachmentEncoding: 'base64',
+      });
+    } catch {
+      return {
+        data: null,
+        error: {
+          name: 'application_error',
+          message: 'Failed to parse raw email content',
+          statusCode: null,
+        },
+        headers: null,
+      };
+    }
 
     const attachments = parsed.attachments.map((attachment) => {
       const contentId = attachment.contentId
@@ -199,22 +225,35 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    let rawEmailContent: string;
+    try {
+      const rawResponse = await fetch(email.raw.download_url);
+
+      if (!rawResponse.ok) {
+        return {
+          data: null,
+          error: {
+            name: 'application_error',
+            message: 'Failed to download raw email content',
+            statusCode: rawResponse.status,
+          },
+          headers: null,
+        };
+      }
 
-    if (!rawResponse.ok) {
+      rawEmailContent = await rawResponse.text();
+    } catch {
       return {
         data: null,
         error: {
           name: 'application_error',
           message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          statusCode: null,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
       {
-- 
2.43.0


From 6cce48325c7bacb48a74206103c43e0aedd47052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 6/9] fix: forward raw emails byte for byte

---
 src/emails/receiving/receiving.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index d0034da..165a4d3 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -125,7 +125,7 @@ export class Receiving {
       };
     }
 
-    let rawEmailContent: string;
+    let rawEmailContent: ArrayBuffer;
     try {
       const rawResponse = await fetch(email.raw.download_url);
 
@@ -141,7 +141,7 @@ export class Receiving {
         };
       }
 
-      rawEmailContent = await rawResponse.text();
+      rawEmailContent = await rawResponse.arrayBuffer();
     } catch {
       return {
         data: null,
@@ -225,7 +225,7 @@ export class Receiving {
       };
     }
 
-    let rawEmailContent: string;
+    let rawEmailContent: ArrayBuffer;
     try {
       const rawResponse = await fetch(email.raw.download_url);
 
@@ -241,7 +241,7 @@ export class Receiving {
         };
       }
 
-      rawEmailContent = await rawResponse.text();
+      rawEmailContent = await rawResponse.arrayBuffer();
     } catch {
       return {
         data: null,
-- 
2.43.0


From 1548c2a2c741246655d10da356f8644f0c02ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 7/9] fix: send arguments as they were when the call was made

---
 src/batch/batch.ts                | 21 +++++++++++++--------
 src/broadcasts/broadcasts.ts      | 13 ++++++++++---
 src/emails/emails.ts              |  3 ++-
 src/emails/receiving/receiving.ts | 12 ++++++++----
 4 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index c6ac157..28ec1a8 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -24,28 +24,33 @@ export class Batch {
     payload: CreateBatchOptions,
     options?: Options,
   ): Promise<CreateBatchResponse<Options>> {
-    const emails: EmailApiOptions[] = [];
+    // The caller may reuse these objects while the React content renders
+    const bodies: CreateEmailOptions[] = payload.map((email) => ({ ...email }));
+    const requestOptions = { ...options };
 
-    for (const email of payload) {
-      const body: CreateEmailOptions = { ...email };
+    const emails: EmailApiOptions[] = [];
 
-      if (email.react) {
-        body.html = await render(email.react);
+    for (const body of bodies) {
+      if (body.react) {
+        body.html = await render(body.react);
       }
 
       emails.push(parseEmailToApiOptions(body));
     }
 
-    const headers = new Headers(options?.headers ?? undefined);
+    const headers = new Headers(requestOptions.headers ?? undefined);
     if (!headers.has('x-batch-validation')) {
-      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+      headers.set(
+        'x-batch-validation',
+        requestOptions.batchValidation ?? 'strict',
+      );
     }
 
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
-        ...options,
+        ...requestOptions,
         headers,
       },
     );
diff --git a/src/broadcasts/broadcasts.ts b/src/broadcasts/broadcasts.ts
index 4d8c2bd..5557abc 100644
--- a/src/broadcasts/broadcasts.ts
+++ b/src/broadcasts/broadcasts.ts
@@ -51,9 +51,13 @@ export class Broadcasts {
   constructor(private readonly resend: Resend) {}
 
   async create(
-    payload: CreateBroadcastOptions,
-    options: CreateBroadcastRequestOptions = {},
+    createOptions: CreateBroadcastOptions,
+    requestOptions: CreateBroadcastRequestOptions = {},
   ): Promise<SendBroadcastResponse> {
+    // The caller may reuse these objects while the React content renders
+    const payload = { ...createOptions };
+    const options = { ...requestOptions };
+
     const html = payload.react ? await render(payload.react) : payload.html;
 
     const data = await this.resend.post<SendBroadcastResponseSuccess>(
@@ -147,8 +151,11 @@ export class Broadcasts {
 
   async update(
     id: string,
-    payload: UpdateBroadcastOptions,
+    updateOptions: UpdateBroadcastOptions,
   ): Promise<UpdateBroadcastResponse> {
+    // The caller may reuse this object while the React content renders
+    const payload = { ...updateOptions };
+
     const html = payload.react ? await render(payload.react) : payload.html;
 
     const data = await this.resend.patch<UpdateBroadcastResponseSuccess>(
diff --git a/src/emails/emails.ts b/src/emails/emails.ts
index ad6141c..64478e2 100644
--- a/src/emails/emails.ts
+++ b/src/emails/emails.ts
@@ -60,6 +60,7 @@ export class Emails {
     options: CreateEmailRequestOptions = {},
   ): Promise<CreateEmailResponse> {
     const body: CreateEmailOptions = { ...payload };
+    const requestOptions: CreateEmailRequestOptions = { ...options };
 
     if (payload.react) {
       body.html = await render(payload.react);
@@ -68,7 +69,7 @@ export class Emails {
     const data = await this.resend.post<CreateEmailResponseSuccess>(
       '/emails',
       parseEmailToApiOptions(body),
-      options,
+      requestOptions,
     );
 
     return data;
diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 165a4d3..203225f 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -62,6 +62,10 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { emailId, to, from } = options;
     const passthrough = options.passthrough !== false;
+    const text = 'text' in options ? options.text : undefined;
+    const html = 'html' in options ? options.html : undefined;
+    // The caller may reuse this object before the email is sent
+    const sendOptions = { ...requestOptions };
 
     const emailResponse = await this.get(emailId);
 
@@ -85,7 +89,7 @@ export class Receiving {
           from,
           subject: originalSubject,
         },
-        requestOptions,
+        sendOptions,
       );
     }
 
@@ -99,10 +103,10 @@ export class Receiving {
         to,
         from,
         subject: forwardSubject,
-        text: 'text' in options ? options.text : undefined,
-        html: 'html' in options ? options.html : undefined,
+        text,
+        html,
       },
-      requestOptions,
+      sendOptions,
     );
   }
 
-- 
2.43.0


From 723f61e3e7b47f5d0837d133671a586c20460764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 8/9] fix: refuse an empty contact identifier passed as a
 string

contacts.get('') and contacts.remove('') sent GET/DELETE /contacts/ instead of
answering missing_required_field like every other validated identifier.
---
 src/contacts/contacts.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 283b17a..3d5a1e8 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -118,11 +118,11 @@ export class Contacts {
   }
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
-    if (typeof options === 'string') {
+    if (typeof options === 'string' && options !== '') {
       return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
     }
 
-    if (!options.id && !options.email) {
+    if (options === '' || (!options.id && !options.email)) {
       return {
         data: null,
         headers: null,
@@ -184,13 +184,13 @@ export class Contacts {
   }
 
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
-    if (typeof payload === 'string') {
+    if (typeof payload === 'string' && payload !== '') {
       return this.resend.delete<RemoveContactsResponseSuccess>(
         `/contacts/${payload}`,
       );
     }
 
-    if (!payload.id && !payload.email) {
+    if (payload === '' || (!payload.id && !payload.email)) {
       return {
         data: null,
         headers: null,
-- 
2.43.0


From ac900da4d8a4824d9a7bd3b8ab7ddc8036ffd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 9/9] fix: release the connection of a failed raw email
 download

---
 src/emails/receiving/receiving.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 203225f..b991d2f 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -134,6 +134,9 @@ export class Receiving {
       const rawResponse = await fetch(email.raw.download_url);
 
       if (!rawResponse.ok) {
+        // Nobody reads this content, so let go of the connection
+        rawResponse.body?.cancel().catch(() => {});
+
         return {
           data: null,
           error: {
@@ -234,6 +237,9 @@ export class Receiving {
       const rawResponse = await fetch(email.raw.download_url);
 
       if (!rawResponse.ok) {
+        // Nobody reads this content, so let go of the connection
+        rawResponse.body?.cancel().catch(() => {});
+
         return {
           data: null,
           error: {
-- 
2.43.0

