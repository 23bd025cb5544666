From 4bbbe315bf69a08ccf62c42ed5d3163af50378e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 01/12] fix: batch.create no longer modifies the caller's
 emails

---
 src/batch/batch.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..aa1df9f 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -25,7 +25,7 @@ export class Batch {
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
 
-    for (const email of payload) {
+    for (const email of payload.map((item) => ({ ...item }))) {
       if (email.react) {
         email.html = await render(email.react);
         email.react = undefined;
-- 
2.43.0


From b765a827f0bcd6a3f3dbc49a2ebb0c5266f2f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 02/12] fix: batch.create accepts every documented form of
 custom headers

---
 src/batch/batch.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index aa1df9f..a5626d1 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -34,15 +34,17 @@ export class Batch {
       emails.push(parseEmailToApiOptions(email));
     }
 
+    const headers = new Headers(options?.headers);
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
         ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
+        headers,
       },
     );
 
-- 
2.43.0


From 7a59299a8962938ad461b08c96c9ed6fde1a1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 03/12] fix: a failed response whose JSON body is not an object
 is an application error

---
 src/resend.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..b616624 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,10 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (parsedError === null || typeof parsedError !== 'object') {
+            throw new SyntaxError('The error response is not an object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 62babe12b5f9681cdbf0f1b4cb4073c14db2273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 04/12] fix: keep the response headers when a chained template
 publish fails early

---
 src/templates/chainable-template-result.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/chainable-template-result.ts b/src/templates/chainable-template-result.ts
index 343e003..51213e1 100644
--- a/src/templates/chainable-template-result.ts
+++ b/src/templates/chainable-template-result.ts
@@ -25,12 +25,12 @@ export class ChainableTemplateResult<
   }
 
   async publish(): Promise<PublishTemplateResponse> {
-    const { data, error } = await this.promise;
+    const { data, error, headers } = await this.promise;
 
     if (error) {
       return {
         data: null,
-        headers: null,
+        headers,
         error,
       };
     }
-- 
2.43.0


From 7aea02a9faeac1bc299c32f1e811c744d8f02584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 05/12] fix: refuse an empty contact identifier instead of
 addressing the collection

---
 src/contacts/contacts.ts | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..7428b6a 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -116,6 +116,18 @@ export class Contacts {
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
     if (typeof options === 'string') {
+      if (!options) {
+        return {
+          data: null,
+          headers: null,
+          error: {
+            message: 'Missing `id` or `email` field.',
+            statusCode: null,
+            name: 'missing_required_field',
+          },
+        };
+      }
+
       return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
     }
 
@@ -182,6 +194,18 @@ export class Contacts {
 
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
     if (typeof payload === 'string') {
+      if (!payload) {
+        return {
+          data: null,
+          headers: null,
+          error: {
+            message: 'Missing `id` or `email` field.',
+            statusCode: null,
+            name: 'missing_required_field',
+          },
+        };
+      }
+
       return this.resend.delete<RemoveContactsResponseSuccess>(
         `/contacts/${payload}`,
       );
-- 
2.43.0


From a8144318db451c8613e4d91db8d94ac4e8b35284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 06/12] fix: forwarding reports download and parse failures as
 errors instead of rejecting

---
 src/emails/receiving/receiving.ts | 74 +++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..3c036fc 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -1,5 +1,6 @@
-import PostalMime from 'postal-mime';
+import PostalMime, { type Email } from 'postal-mime';
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import type { Response } from '../../interfaces';
 import type { Resend } from '../../resend';
 import { Attachments } from './attachments/attachments';
 import type {
@@ -125,26 +126,31 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const rawEmail = await this.downloadRawEmail(email.raw.download_url);
 
-    if (!rawResponse.ok) {
+    if (rawEmail.error) {
+      return rawEmail;
+    }
+
+    const rawEmailContent = rawEmail.data;
+
+    let parsed: Email;
+    try {
+      parsed = await PostalMime.parse(rawEmailContent, {
+        attachmentEncoding: 'base64',
+      });
+    } catch {
       return {
         data: null,
         error: {
           name: 'application_error',
-          message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          message: 'Failed to parse raw email content',
+          statusCode: null,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
-    const parsed = await PostalMime.parse(rawEmailContent, {
-      attachmentEncoding: 'base64',
-    });
-
     const attachments = parsed.attachments.map((attachment) => {
       const contentId = attachment.contentId
         ? attachment.contentId.replace(/^<|>$/g, '')
@@ -199,21 +205,13 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const rawEmail = await this.downloadRawEmail(email.raw.download_url);
 
-    if (!rawResponse.ok) {
-      return {
-        data: null,
-        error: {
-          name: 'application_error',
-          message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
-        },
-        headers: null,
-      };
+    if (rawEmail.error) {
+      return rawEmail;
     }
 
-    const rawEmailContent = await rawResponse.text();
+    const rawEmailContent = rawEmail.data;
 
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
@@ -236,4 +234,34 @@ export class Receiving {
 
     return data;
   }
+
+  private async downloadRawEmail(url: string): Promise<Response<string>> {
+    try {
+      const rawResponse = await fetch(url);
+
+      if (!rawResponse.ok) {
+        return {
+          data: null,
+          error: {
+            name: 'application_error',
+            message: 'Failed to download raw email content',
+            statusCode: rawResponse.status,
+          },
+          headers: null,
+        };
+      }
+
+      return { data: await rawResponse.text(), error: null, headers: null };
+    } catch {
+      return {
+        data: null,
+        error: {
+          name: 'application_error',
+          message: 'Failed to download raw email content',
+          statusCode: null,
+        },
+        headers: null,
+      };
+    }
+  }
 }
-- 
2.43.0


From c766b5fd0a4527ccb02bc66e1977878c82a912c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 07/12] fix: forward the raw email bytes unchanged instead of
 decoding them as UTF-8

---
 src/emails/receiving/receiving.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 3c036fc..17ffdef 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -235,7 +235,7 @@ export class Receiving {
     return data;
   }
 
-  private async downloadRawEmail(url: string): Promise<Response<string>> {
+  private async downloadRawEmail(url: string): Promise<Response<ArrayBuffer>> {
     try {
       const rawResponse = await fetch(url);
 
@@ -251,7 +251,11 @@ export class Receiving {
         };
       }
 
-      return { data: await rawResponse.text(), error: null, headers: null };
+      return {
+        data: await rawResponse.arrayBuffer(),
+        error: null,
+        headers: null,
+      };
     } catch {
       return {
         data: null,
-- 
2.43.0


From 7a0595a74346856dd9f4ae474cb0d7bfade34efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 08/12] fix: send the arguments as they were at the time of the
 call

---
 src/batch/batch.ts                | 10 +++++++---
 src/broadcasts/broadcasts.ts      | 11 ++++++++---
 src/emails/emails.ts              |  3 ++-
 src/emails/receiving/receiving.ts | 11 +++++++----
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index a5626d1..a462c2b 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -24,6 +24,7 @@ export class Batch {
     options?: Options,
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
+    const requestOptions = { ...options };
 
     for (const email of payload.map((item) => ({ ...item }))) {
       if (email.react) {
@@ -34,16 +35,19 @@ export class Batch {
       emails.push(parseEmailToApiOptions(email));
     }
 
-    const headers = new Headers(options?.headers);
+    const headers = new Headers(requestOptions.headers);
     if (!headers.has('x-batch-validation')) {
-      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+      headers.set(
+        'x-batch-validation',
+        requestOptions.batchValidation ?? 'strict',
+      );
     }
 
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
-        ...options,
+        ...requestOptions,
         headers,
       },
     );
diff --git a/src/broadcasts/broadcasts.ts b/src/broadcasts/broadcasts.ts
index 4d8c2bd..2b8934e 100644
--- a/src/broadcasts/broadcasts.ts
+++ b/src/broadcasts/broadcasts.ts
@@ -51,9 +51,12 @@ export class Broadcasts {
   constructor(private readonly resend: Resend) {}
 
   async create(
-    payload: CreateBroadcastOptions,
-    options: CreateBroadcastRequestOptions = {},
+    input: CreateBroadcastOptions,
+    requestOptions: CreateBroadcastRequestOptions = {},
   ): Promise<SendBroadcastResponse> {
+    // Copied before rendering, so that later changes by the caller are not sent
+    const payload: CreateBroadcastOptions = { ...input };
+    const options = { ...requestOptions };
     const html = payload.react ? await render(payload.react) : payload.html;
 
     const data = await this.resend.post<SendBroadcastResponseSuccess>(
@@ -147,8 +150,10 @@ export class Broadcasts {
 
   async update(
     id: string,
-    payload: UpdateBroadcastOptions,
+    input: UpdateBroadcastOptions,
   ): Promise<UpdateBroadcastResponse> {
+    // Copied before rendering, so that later changes by the caller are not sent
+    const payload: UpdateBroadcastOptions = { ...input };
     const html = payload.react ? await render(payload.react) : payload.html;
 
     const data = await this.resend.patch<UpdateBroadcastResponseSuccess>(
diff --git a/src/emails/emails.ts b/src/emails/emails.ts
index ad6141c..7e786b6 100644
--- a/src/emails/emails.ts
+++ b/src/emails/emails.ts
@@ -60,6 +60,7 @@ export class Emails {
     options: CreateEmailRequestOptions = {},
   ): Promise<CreateEmailResponse> {
     const body: CreateEmailOptions = { ...payload };
+    const requestOptions = { ...options };
 
     if (payload.react) {
       body.html = await render(payload.react);
@@ -68,7 +69,7 @@ export class Emails {
     const data = await this.resend.post<CreateEmailResponseSuccess>(
       '/emails',
       parseEmailToApiOptions(body),
-      options,
+      requestOptions,
     );
 
     return data;
diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 17ffdef..4be8058 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -63,6 +63,9 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { emailId, to, from } = options;
     const passthrough = options.passthrough !== false;
+    const text = 'text' in options ? options.text : undefined;
+    const html = 'html' in options ? options.html : undefined;
+    const sendOptions = { ...requestOptions };
 
     const emailResponse = await this.get(emailId);
 
@@ -86,7 +89,7 @@ export class Receiving {
           from,
           subject: originalSubject,
         },
-        requestOptions,
+        sendOptions,
       );
     }
 
@@ -100,10 +103,10 @@ export class Receiving {
         to,
         from,
         subject: forwardSubject,
-        text: 'text' in options ? options.text : undefined,
-        html: 'html' in options ? options.html : undefined,
+        text,
+        html,
       },
-      requestOptions,
+      sendOptions,
     );
   }
 
-- 
2.43.0


From 32327f58c9c9d3ac12d25f6be64ff057dce55950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:35 +0000
Subject: [PATCH 09/12] fix: a failed response whose JSON body is an array is
 an application error

---
 src/resend.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resend.ts b/src/resend.ts
index b616624..2f17f9b 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,7 +120,11 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
-          if (parsedError === null || typeof parsedError !== 'object') {
+          if (
+            parsedError === null ||
+            typeof parsedError !== 'object' ||
+            Array.isArray(parsedError)
+          ) {
             throw new SyntaxError('The error response is not an object');
           }
 
-- 
2.43.0


From f0a5722f8339690cdbba9e2fd9197a02a0cabd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:14 +0000
Subject: [PATCH 10/12] fix: listing contact properties does not reject when
 the response is no list

---
 src/common/utils/parse-contact-properties-to-api-options.ts | 4 ++++
 src/contact-properties/contact-properties.ts                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/common/utils/parse-contact-properties-to-api-options.ts b/src/common/utils/parse-contact-properties-to-api-options.ts
index d2a4a6c..6f30935 100644
--- a/src/common/utils/parse-contact-properties-to-api-options.ts
+++ b/src/common/utils/parse-contact-properties-to-api-options.ts
@@ -14,6 +14,10 @@ import type {
 export function parseContactPropertyFromApi(
   contactProperty: ApiContactProperty,
 ): ContactProperty {
+  if (!contactProperty) {
+    return contactProperty;
+  }
+
   return {
     id: contactProperty.id,
     key: contactProperty.key,
diff --git a/src/contact-properties/contact-properties.ts b/src/contact-properties/contact-properties.ts
index 2c56e05..3e743fb 100644
--- a/src/contact-properties/contact-properties.ts
+++ b/src/contact-properties/contact-properties.ts
@@ -50,6 +50,10 @@ export class ContactProperties {
     const response =
       await this.resend.get<ListContactPropertiesResponseSuccess>(url);
 
+    if (response.data && !Array.isArray(response.data.data)) {
+      return response as unknown as ListContactPropertiesResponse;
+    }
+
     if (response.data) {
       return {
         data: {
-- 
2.43.0


From d3852e01632f72319409f7be0064ae3447a729a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:19 +0000
Subject: [PATCH 11/12] fix: forwarding does not reject when the received email
 is no email

---
 src/emails/receiving/receiving.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 4be8058..7360700 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -79,7 +79,10 @@ export class Receiving {
 
     const email = emailResponse.data;
 
-    const originalSubject = email.subject || '(no subject)';
+    const originalSubject =
+      typeof email?.subject === 'string' && email.subject
+        ? email.subject
+        : '(no subject)';
 
     if (passthrough) {
       return this.forwardPassthrough(
@@ -117,7 +120,7 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { to, from, subject } = options;
 
-    if (!email.raw?.download_url) {
+    if (!email?.raw?.download_url) {
       return {
         data: null,
         error: {
@@ -196,7 +199,7 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { to, from, subject, text, html } = options;
 
-    if (!email.raw?.download_url) {
+    if (!email?.raw?.download_url) {
       return {
         data: null,
         error: {
-- 
2.43.0


From 1cd808a42d006dc4ffa3e421512f8ed8241e5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:23 +0000
Subject: [PATCH 12/12] fix: a chained publish sends nothing when the first
 response names no template

---
 src/templates/chainable-template-result.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/templates/chainable-template-result.ts b/src/templates/chainable-template-result.ts
index 51213e1..1ee217d 100644
--- a/src/templates/chainable-template-result.ts
+++ b/src/templates/chainable-template-result.ts
@@ -34,6 +34,17 @@ export class ChainableTemplateResult<
         error,
       };
     }
+    if (!data?.id) {
+      return {
+        data: null,
+        headers,
+        error: {
+          name: 'application_error',
+          message: 'The response names no template to publish',
+          statusCode: null,
+        },
+      };
+    }
     return this.publishFn(data.id);
   }
 }
-- 
2.43.0

