From 3658b137ea3332d7bab7e92e3c5fdd8a662013df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/71] fix: rtConnection: hold the connection mutex when a
 timed out request is dequeued

---
 src/rtmessage/rtConnection.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..1219710 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1050,7 +1050,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         else if(err == RT_NO_CONNECTION)
         {
           ret = err;
-          goto dequeue_and_continue;
+          break;
         }
         else
         {
@@ -1060,11 +1060,10 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
+    pthread_mutex_lock(&con->mutex);
     if(RT_OK == ret)
     {
       /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
-
       if(queue_entry.response)
       {
         if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
@@ -1086,6 +1085,11 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         ret = RT_ERROR;
       }
     }
+    else if(queue_entry.response)
+    {
+      /*The response arrived after we gave up waiting for it*/
+      rtMessageInfo_Release(queue_entry.response);
+    }
 
 dequeue_and_continue:
     rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
-- 
2.43.0


From 8f5d2220517bb121358cccc2d7952ef12e746ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 02/71] fix: rbuscore: the direct-connection lookup must not
 unlock its caller's mutex

---
 src/core/rbuscore.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..4549d06 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2652,7 +2652,6 @@ rbusServerDMLList_t* rbuscore_FindServerPrivateClient (const char *pParameterNam
                 if ((0 == strncmp(pDmlObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH)) &&
                     (0 == strncmp(pDmlObj->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH)))
                 {
-                    directServerUnlock();
                     return pDmlObj;
                 }
             }
@@ -2681,15 +2680,15 @@ rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const
     rbusServerDMLList_t *pObj = NULL;
     if (pConsumerName && pDMLName)
     {
+        directServerLock();
         pObj = rbuscore_FindServerPrivateClient (pDMLName, pConsumerName);
         if (pObj)
         {
-            directServerLock();
             rtVector_RemoveItem(gListOfServerDirectDMLs, pObj, rtVector_Cleanup_Free);
             _rbuscore_directconnection_save_to_cache();
-            directServerUnlock();
         }
-        else
+        directServerUnlock();
+        if (!pObj)
         {
             RBUSCORELOG_WARN("No Direct Connection for this DML(%s) exist for this consumer(%s)", pDMLName, pConsumerName);
             ret = RBUSCORE_ERROR_INVALID_PARAM;
-- 
2.43.0


From 3e56e10287b9d15c739055a35a3d2ec8813cdde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 03/71] fix: rbuscore: opening and closing the broker
 connection leave the global mutex balanced

---
 src/core/rbuscore.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 4549d06..29d6298 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -648,8 +648,8 @@ rbusCoreError_t rbus_openBrokerConnection2(const char * component_name, const ch
     {
         RBUSCORELOG_ERROR("Failed to create a connection for %s: Error: %d", component_name, result);
         g_connection = NULL;
-        perform_cleanup();
         unlock();
+        perform_cleanup();
         return RBUSCORE_ERROR_GENERAL;
     }
 
@@ -665,6 +665,7 @@ rbusCoreError_t rbus_closeBrokerConnection()
     if(NULL == g_connection)
     {
         RBUSCORELOG_INFO("No connection exist to close.");
+        unlock();
         return RBUSCORE_ERROR_INVALID_STATE;
     }
     if(1 < rtVector_Size(g_server_objects))
@@ -673,6 +674,7 @@ rbusCoreError_t rbus_closeBrokerConnection()
         unlock();
         return RBUSCORE_SUCCESS;
     }
+    unlock();
     rbus_releaseOpenTelemetryContext();
     perform_cleanup();
     err = rtConnection_Destroy(g_connection);
@@ -683,7 +685,6 @@ rbusCoreError_t rbus_closeBrokerConnection()
     }
     g_connection = NULL;
     g_run_event_client_dispatch = false;
-    unlock();
 
     pthread_mutex_destroy(&g_mutex);
     pthread_mutex_destroy(&g_directServMutex);
-- 
2.43.0


From 797475b204a6c8d2dddee0cb1e21a443b0265fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 04/71] fix: rbuscore: do not relock the global mutex while it
 is held

---
 src/core/rbuscore.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d6298..b9bc39d 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -842,14 +842,11 @@ rbusCoreError_t rbus_registerObj(const char * object_name, rbus_callback_t handl
     }
 }
 
-rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method_name, rbus_callback_t handler, void * user_data)
+/*caller holds g_mutex*/
+static rbusCoreError_t register_method_locked(const char * object_name, const char *method_name, rbus_callback_t handler, void * user_data)
 {
     /*using namespace rbus_server;*/
     rbusCoreError_t ret = RBUSCORE_SUCCESS;
-    if(MAX_METHOD_NAME_LENGTH <= strlen(method_name))
-        return RBUSCORE_ERROR_INVALID_PARAM;
-
-    lock();
     //TODO: Check that method name length is within limits and search for duplicates
     server_object_t obj = get_object(object_name);
     if(obj)
@@ -865,7 +862,6 @@ rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method
 
             if(method)
             {
-               unlock();
                RBUSCORELOG_ERROR("Method %s is already registered,Rejecting duplicate registration.", method_name);
                return RBUSCORE_ERROR_INVALID_PARAM;
             }
@@ -882,6 +878,17 @@ rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method
         RBUSCORELOG_ERROR("Couldn't locate object %s.", object_name);
         ret = RBUSCORE_ERROR_INVALID_PARAM;
     }
+    return ret;
+}
+
+rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method_name, rbus_callback_t handler, void * user_data)
+{
+    rbusCoreError_t ret;
+    if(MAX_METHOD_NAME_LENGTH <= strlen(method_name))
+        return RBUSCORE_ERROR_INVALID_PARAM;
+
+    lock();
+    ret = register_method_locked(object_name, method_name, handler, user_data);
     unlock();
     return ret;
 }
@@ -1342,13 +1349,13 @@ static rbusCoreError_t install_subscription_handlers(server_object_t object)
 
     /*No subscription handlers present. Add them.*/
     RBUSCORELOG_DEBUG("Adding handler for subscription requests for %s.", object->name);
-    if((ret = rbus_registerMethod(object->name, METHOD_SUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
+    if((ret = register_method_locked(object->name, METHOD_SUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
     {
         RBUSCORELOG_ERROR("Could not register add_subscription_handler.");
     }
     else
     {
-        if((ret = rbus_registerMethod(object->name, METHOD_UNSUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
+        if((ret = register_method_locked(object->name, METHOD_UNSUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
         {
             RBUSCORELOG_ERROR("Could not register remove_subscription_handler.");
         }
@@ -1639,9 +1646,7 @@ static rbusCoreError_t rbus_subscribeToEventInternal(const char * object_name,
         if(g_master_event_callback == NULL)
         {
             /*Something went wrong in the RPC. Undo what we did so far and report error.*/
-            lock();
             remove_subscription_callback(object_name, event_name);
-            unlock();
         }
     }
     return ret;
-- 
2.43.0


From 21f26af9b2e84dcf5df9ff20823b2e287b738287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 05/71] fix: rbus: balance the mutexes in RemoveAllListeners
 and UnsubscribeExRawData

---
 src/rbus/rbus.c         | 2 +-
 src/rbus/rbus_message.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..928104e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5718,8 +5718,8 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
             RBUSLOG_INFO("%s no existing subscription found", subscription[i].eventName);
             errorcode = RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
         }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     }
-    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return errorcode;
 }
 
diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 4197fa7..ba0468e 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -251,7 +251,8 @@ rbusError_t rbusMessage_RemoveAllListeners(
     for (i = 0, n = rtVector_Size(handle->messageCallbacks); i < n; ++i)
     {
         rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
-        VERIFY_NULL(ctx);
+        if(!ctx)
+            continue;
         rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->subscriptionId);
         if (e != RT_OK)
         {
-- 
2.43.0


From 2ff63742de02d656278ac75f0f0ad957f691be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 06/71] fix: rbus: handle_subsMutex is taken recursively, make
 it a recursive mutex

---
 src/rbus/rbus.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 928104e..efd39d3 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3022,6 +3022,8 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
     ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
+    /*a provider's resubscription and client disconnect handling re-enter subscribeHandlerImpl with handle_subsMutex held*/
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
 
     *handle = tmpHandle;
-- 
2.43.0


From 1ee5cfab3e9ad9d4f4eee58920d0a55e0d41f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 07/71] fix: rtConnection: read the listener table only with
 the connection mutex held

---
 src/rtmessage/rtConnection.c | 37 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 1219710..7cb30c5 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -424,13 +424,18 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   /*on reconnect, add back all listeners */
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
+    rtMessage m = NULL;
+    pthread_mutex_lock(&con->mutex);
     if (con->listeners[i].in_use)
     {
-      rtMessage m;
       rtMessage_Create(&m);
       rtMessage_SetInt32(m, "add", 1);
       rtMessage_SetString(m, "topic", con->listeners[i].expression);
       rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
+    }
+    pthread_mutex_unlock(&con->mutex);
+    if (m)
+    {
       rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
       rtMessage_Release(m);
 
@@ -497,7 +502,7 @@ rtConnection_ReadUntil(rtConnection con, uint8_t* buff, int count, int32_t timeo
     ssize_t n = recv(con->fd, buff + bytes_read, (bytes_to_read - bytes_read), MSG_NOSIGNAL);
     if (n == 0)
     {
-      if(0 != con->run_threads)
+      if(0 != GetRunThreadsSync(con))
         rtLog_Error("Failed to read error : %s", rtStrError(rtErrorFromErrno(ENOTCONN)));
       return rtErrorFromErrno(ENOTCONN);
     }
@@ -1276,7 +1281,7 @@ rtConnection_AddListenerWithId(rtConnection con, char const* expression, uint32_
   rtMessage_Create(&m);
   rtMessage_SetInt32(m, "add", 1);
   rtMessage_SetString(m, "topic", expression);
-  rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
+  rtMessage_SetInt32(m, "route_id", expressionId);
   rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
   rtMessage_Release(m);
 
@@ -1370,18 +1375,21 @@ rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
+  pthread_mutex_lock(&con->mutex);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
     if (1 == con->listeners[i].in_use)
     {
       if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
       {
+        uint32_t route_id = con->listeners[i].subscription_id;
+        pthread_mutex_unlock(&con->mutex);
         rtMessage m;
         rtMessage res;
         rtMessage_Create(&m);
         rtMessage_SetInt32(m, "add", 1);
         rtMessage_SetString(m, "topic", alias);
-        rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
+        rtMessage_SetInt32(m, "route_id", route_id);
         ret = rtConnection_SendRequest(con, m, "_RTROUTED.INBOX.SUBSCRIBE", &res, 6000);
         if(RT_OK == ret)
         {
@@ -1395,15 +1403,13 @@ rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
             rtMessage_Release(res);
         }
         rtMessage_Release(m);
-        break;
+        return ret;
       }
     }
   }
+  pthread_mutex_unlock(&con->mutex);
 
-  if (i >= RTMSG_LISTENERS_MAX)
-    return rtErrorFromErrno(ENOMEM);
-
-  return ret;
+  return rtErrorFromErrno(ENOMEM);
 }
 rtError
 rtConnection_RemoveAlias(rtConnection con, char const* existing, const char *alias)
@@ -1413,29 +1419,30 @@ rtConnection_RemoveAlias(rtConnection con, char const* existing, const char *ali
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
+  pthread_mutex_lock(&con->mutex);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
     if (1 == con->listeners[i].in_use)
     {
       if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
       {
+        uint32_t route_id = con->listeners[i].subscription_id;
+        pthread_mutex_unlock(&con->mutex);
         rtMessage m;
         rtMessage_Create(&m);
         rtMessage_SetInt32(m, "add", 0);
         rtMessage_SetString(m, "topic", alias);
-        rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
+        rtMessage_SetInt32(m, "route_id", route_id);
         rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
         rtMessage_Release(m);
-        break;
+        return 0;
       }
     }
 
   }
+  pthread_mutex_unlock(&con->mutex);
 
-  if (i >= RTMSG_LISTENERS_MAX)
-    return rtErrorFromErrno(ENOMEM);
-
-  return 0;
+  return rtErrorFromErrno(ENOMEM);
 }
 rtError
 rtConnection_AddDefaultListener(rtConnection con, rtMessageCallback callback, void* closure)
-- 
2.43.0


From edeaa9e1285ddad375c926f91616b7663464934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 08/71] fix: rbuscore: look up and change an event's listeners
 under the global mutex

---
 src/core/rbuscore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index b9bc39d..5cc07ea 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -98,6 +98,8 @@ typedef struct _server_object
 /////////////
 extern char* __progname;
 static void _freePrivateServer(void* p);
+static int lock();
+static int unlock();
 static void _rbuscore_directconnection_load_from_cache();
 static void _rbuscore_destroy_clientPrivate_connections();
 const rtPrivateClientInfo* _rbuscore_find_server_privateconnection(const char *pParameterName, const char *pConsumerName);
@@ -229,6 +231,7 @@ rbusCoreError_t server_object_subscription_handler(server_object_t obj, const ch
             return ret;
     }
 
+    lock();
     server_event_t server_event = rtVector_Find(obj->subscriptions, event, server_event_compare);
 
     if(server_event)
@@ -241,10 +244,12 @@ rbusCoreError_t server_object_subscription_handler(server_object_t obj, const ch
         {
             server_event_removeListener(server_event, subscriber);
         }
+        unlock();
         return RBUSCORE_SUCCESS;
     }
     else
     {
+        unlock();
         RBUSCORELOG_ERROR("Object %s doesn't support event %s. Cannot %s listener.", obj->name, event, added ? "add":"remove");
         return RBUSCORE_ERROR_UNSUPPORTED_EVENT;
     }
-- 
2.43.0


From 9062c9b610806467d9bc567121b6a40c7a1c4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 09/71] fix: rbuscore: answer a malformed subscription request
 with an error

---
 src/core/rbuscore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 5cc07ea..901b6f3 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1299,6 +1299,11 @@ static int subscription_handler(const char *not_used, const char * method_name,
             rbusMessage_SetInt32(*out, ret);
         }
     }
+    else
+    {
+        RBUSCORELOG_ERROR("Malformed subscription request.");
+        rbusMessage_SetInt32(*out, RBUSCORE_ERROR_INVALID_PARAM);
+    }
     
     return 0;
 }
-- 
2.43.0


From 56e58d873a21574eee76254434bb7553bd3f1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 10/71] fix: rbuscore: cleaning up several private connections
 ends and joins their threads unlocked

---
 src/core/rbuscore.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 901b6f3..dcb42c2 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -393,12 +393,14 @@ static void perform_cleanup()
 
     RBUSCORELOG_DEBUG("Performing cleanup");
 
+    /* joins the connections' threads, which take the mutex */
+    _rbuscore_destroy_clientPrivate_connections();
+
     lock();
 
     rtVector_Destroy(g_server_objects, server_object_destroy);
 
     rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
-    _rbuscore_destroy_clientPrivate_connections();
     rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
 
     sz = rtVector_Size(g_event_subscriptions_for_client);
@@ -2882,23 +2884,26 @@ static int _findClientPrivateDML(const void* left, const void* right)
 static void _rbuscore_destroy_clientPrivate_connections()
 {
     rbusClientDMLList_t *obj = NULL;
-    char* pTmpProvider = NULL;
 
     directClientLock();
 
     while(rtVector_Size(gListOfClientDirectDMLs) > 0)
     {
+        char providerName[MAX_OBJECT_NAME_LENGTH];
+        rtConnection connection;
+
         obj = rtVector_At(gListOfClientDirectDMLs, 0);
-        rtConnection_Destroy(obj->m_privConn);
-        pTmpProvider = strdup(obj->m_providerName);
-        rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
+        connection = obj->m_privConn;
+        memcpy(providerName, obj->m_providerName, sizeof(providerName));
 
-        while(rtVector_Size(gListOfClientDirectDMLs) > 0)
-        {
-            rtVector_RemoveItemByCompare(gListOfClientDirectDMLs, pTmpProvider, _findClientPrivateConnection, rtVector_Cleanup_Free);
-        }
+        /* all of a provider's entries share its connection */
+        while((obj = rtVector_Find(gListOfClientDirectDMLs, providerName, _findClientPrivateConnection)) != NULL)
+            rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
 
-        free(pTmpProvider);
+        /* the connection's threads may be waiting for this mutex */
+        directClientUnlock();
+        rtConnection_Destroy(connection);
+        directClientLock();
     }
 
     directClientUnlock();
-- 
2.43.0


From 4c8b5a95658f175a2de910db679220c79f5bbf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 11/71] fix: rbuscore: close a private connection without
 holding its table's mutex

---
 src/core/rbuscore.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index dcb42c2..7f059fe 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -3065,16 +3065,15 @@ rbusCoreError_t rbuscore_closePrivateConnection(const char *pParameterName)
     rbusClientDMLList_t *obj = NULL;
     rtConnection  connection = NULL;
     rbusMessage request, response;
-    char providerName[MAX_OBJECT_NAME_LENGTH+1] = "";
 
     if (pParameterName)
     {
         directClientLock();
         obj = rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
+        directClientUnlock();
         if (!obj)
         {
             RBUSCORELOG_DEBUG("Private Connection Does Not Exist anymore for (%s)", pParameterName);
-            directClientUnlock();
             /* Possibly the Provider Exited and we removed it as part of Advisory message */
             return RBUSCORE_ERROR_GENERAL;
         }
@@ -3096,21 +3095,30 @@ rbusCoreError_t rbuscore_closePrivateConnection(const char *pParameterName)
 
             if (RBUSCORE_SUCCESS == err)
             {
-                connection = obj->m_privConn;
-                memcpy(providerName, obj->m_providerName, MAX_OBJECT_NAME_LENGTH);
-                providerName[MAX_OBJECT_NAME_LENGTH] = '\0';
-                rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
+                directClientLock();
+                /* the advisory may have removed it meanwhile */
+                obj = rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
+                if (obj)
+                {
+                    char providerName[MAX_OBJECT_NAME_LENGTH];
+
+                    connection = obj->m_privConn;
+                    memcpy(providerName, obj->m_providerName, sizeof(providerName));
+                    rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
+                    if (rtVector_Find(gListOfClientDirectDMLs, providerName, _findClientPrivateConnection))
+                        connection = NULL;
+                }
+                directClientUnlock();
             }
             rbusMessage_Release(response);
         }
 
-        obj = rtVector_Find(gListOfClientDirectDMLs, providerName, _findClientPrivateConnection);
-        if (!obj)
+        if (connection)
         {
+            /* joins the connection's threads, which take the mutex */
             RBUSCORELOG_DEBUG("No more DML for this provider, so lets destroy the connection.");
             rtConnection_Destroy(connection);
         }
-        directClientUnlock();
     }
     else
         err = RBUSCORE_ERROR_INVALID_PARAM;
@@ -3130,13 +3138,16 @@ rbusCoreError_t rbuscore_terminatePrivateConnection(const char *pProviderName)
     if (obj)
     {
         connection = obj->m_privConn;
-        rtConnection_Destroy(connection);
         rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
         while ((obj = rtVector_Find(gListOfClientDirectDMLs, pProviderName, _findClientPrivateConnection)) != NULL)
             rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
     }
     directClientUnlock();
 
+    /* joins the connection's threads, which take the mutex */
+    if (connection)
+        rtConnection_Destroy(connection);
+
     return err;
 }
 
-- 
2.43.0


From a4450b6ea41273b016f847b2012eb2ab994c539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 12/71] fix: rbus: the interval thread must not take
 handle_subsMutex inside its own mutex

---
 src/rbus/rbus_intervalsubscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..62fd8c3 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -202,10 +202,10 @@ static void* PublishingThreadFunc(void* rec)
     }
     ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
     if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
         ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
         rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
         ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
+        ERROR_CHECK(pthread_mutex_lock(&gMutex));
         rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
         ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     }
-- 
2.43.0


From a01df9005d107565220d3368a237d8bee02038d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 13/71] fix: rbus: read and change the interval records under
 their mutexes

---
 src/rbus/rbus_intervalsubscription.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index 62fd8c3..5fe0998 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -243,7 +243,6 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         rtVector_Create(&gRecord);
 
     sub_rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     if(!sub_rec)
     {
         sub_rec = (sRecord*)rt_malloc(sizeof(sRecord));
@@ -259,6 +258,7 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
 
         rtVector_PushBack(gRecord, sub_rec);
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return RBUS_ERROR_SUCCESS; 
 }
 
@@ -272,22 +272,21 @@ void rbusInterval_RemoveSubscriptionRecord(
     (void)(propNode);
     VERIFY_NULL(sub);
 
-    if (!gRecord)
-    {
-        return;
-    }
-
     sRecord* rec;
     ERROR_CHECK(pthread_mutex_lock(&gMutex));
-    rec = sub_find(sub);
+    rec = gRecord ? sub_find(sub) : NULL;
     ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 
     if(rec)
     {
-        if(rec->running)
+        bool running;
+        ERROR_CHECK(pthread_mutex_lock(&rec->mutex));
+        running = rec->running;
+        rec->running = 0;
+        ERROR_CHECK(pthread_cond_signal(&rec->cond));
+        ERROR_CHECK(pthread_mutex_unlock(&rec->mutex));
+        if(running)
         {
-            rec->running = 0;
-            ERROR_CHECK(pthread_cond_signal(&rec->cond));
             ERROR_CHECK(pthread_join(rec->thread, NULL));
         }
         ERROR_CHECK(pthread_mutex_lock(&gMutex));
-- 
2.43.0


From 567ef629788a38599c8d3482d15639387f65b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 14/71] fix: rbus: a disconnected client's interval, filtered
 and raw subscriptions are removed too

---
 src/rbus/rbus_subscriptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..8370f3e 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -851,7 +851,7 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
             if(el)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, 0);
             }
             else
             {
-- 
2.43.0


From 7ef2b05e393fc4a32252d26e262158e25e045403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 15/71] fix: rbus: raw data subscription looks its entry up
 under handle_eventSubsMutex

---
 src/rbus/rbus.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index efd39d3..33997b4 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5280,6 +5280,8 @@ rbusError_t  rbusEvent_SubscribeRawData(
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
     rbusEventSubscriptionInternal_t* subInternal = NULL;
+    rbusEventSubscription_t* sub = NULL;
+    uint32_t subscriptionId = 0;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
     VERIFY_NULL(handle);
@@ -5298,14 +5300,27 @@ rbusError_t  rbusEvent_SubscribeRawData(
         return errorcode;
     }
 
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
+    if(subInternal)
+    {
+        sub = subInternal->sub;
+        subscriptionId = subInternal->subscriptionId;
+    }
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+    if(!sub)
+    {
+        RBUSLOG_ERROR("Subscription to %s was removed meanwhile", eventName);
+        return RBUS_ERROR_INVALID_OPERATION;
+    }
+
     rtConnection myConn = rbuscore_FindClientPrivateConnection(eventName);
     if(myConn)
     {
         snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
-        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
-        if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
+        if(rbusMessage_HasListener(handle,rawDataTopic))
         {
-            errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
+            errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subscriptionId);
             if (errorcode != RT_OK)
             {
                 RBUSLOG_WARN("rbusMessage_RemoveListener:%d", errorcode);
@@ -5313,7 +5328,7 @@ rbusError_t  rbusEvent_SubscribeRawData(
         }
         memset(rawDataTopic, '\0', strlen(rawDataTopic));
         snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", eventName);
-        errorcode = rbusMessage_AddPrivateListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+        errorcode = rbusMessage_AddPrivateListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)sub, subscriptionId);
         if(errorcode != RBUS_ERROR_SUCCESS)
         {
             RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
@@ -5321,10 +5336,9 @@ rbusError_t  rbusEvent_SubscribeRawData(
     }
     else
     {
-        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
         snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
         errorcode = rbusMessage_AddListener(handle, rawDataTopic,
-                _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+                _subscribe_rawdata_handler, (void *)sub, subscriptionId);
         if(errorcode != RBUS_ERROR_SUCCESS)
         {
             RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
-- 
2.43.0


From 57985dca7e0242afa88de1f6c88ed554c7d2c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 16/71] fix: rbus: look at a handle's subscriptions only with
 handle_subsMutex held

---
 src/rbus/rbus.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 33997b4..89d063f 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1287,12 +1287,12 @@ static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
         }
 
         /* Re-subscribe all the child elements of this row */
+        HANDLE_SUBS_MUTEX_LOCK(handle);
         if(handleInfo->subscriptions)
         {
-            HANDLE_SUBS_MUTEX_LOCK(handle);
             rbusSubscriptions_resubscribeRowElementCache(handle, handleInfo->subscriptions, rowElem);
-            HANDLE_SUBS_MUTEX_UNLOCK(handle);
         }
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         rbusValue_Release(rowNameVal);
         rbusValue_Release(instNumVal);
         rbusValue_Release(aliasVal);
@@ -3213,13 +3213,13 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->messageCallbacks = NULL;
     }
 
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     if(handleInfo->subscriptions != NULL)
     {
-        HANDLE_SUBS_MUTEX_LOCK(handle);
         rbusSubscriptions_destroy(handleInfo->subscriptions);
-        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         handleInfo->subscriptions = NULL;
     }
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
 
@@ -3312,10 +3312,12 @@ rbusError_t rbus_regDataElements(
             RBUSLOG_DEBUG("Root node created for [%s]", handleInfo->elementRoot->name);
         }
 
+        HANDLE_SUBS_MUTEX_LOCK(handle);
         if(handleInfo->subscriptions == NULL)
         {
             rbusSubscriptions_create(&handleInfo->subscriptions, handle, handleInfo->componentName, handleInfo->elementRoot, RBUS_TMP_DIRECTORY);
         }
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
         if((err = rbus_addElement(handleInfo->componentName, name)) != RBUSCORE_SUCCESS)
         {
-- 
2.43.0


From 6238e539769949a8eaead21350cd6a8905e18042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 17/71] fix: rbus: a handle's message callbacks are destroyed
 under their mutex

---
 src/rbus/rbus.c         | 9 +++------
 src/rbus/rbus_message.c | 2 ++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 89d063f..a57a89c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3107,7 +3107,9 @@ rbusError_t rbus_openDirect(rbusHandle_t handle, rbusHandle_t* myDirectHandle, c
                 tmpHandle->messageCallbacks = handleInfo->messageCallbacks;
                 tmpHandle->m_handleType = RBUS_HWDL_TYPE_DIRECT;
                 *myDirectHandle = tmpHandle;
+                HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
                 rbusOpenDirect_SubAdd(handle, handle->eventSubs, pParameterName);
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
                 if (!sDisConnHandler)
                 {
                     rbus_registerClientDisconnectHandler(_client_disconnect_callback_handler);
@@ -3206,12 +3208,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     }
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
-    if (handleInfo->messageCallbacks)
-    {
-        rbusMessage_RemoveAllListeners(handle);
-        rtVector_Destroy(handleInfo->messageCallbacks, NULL);
-        handleInfo->messageCallbacks = NULL;
-    }
+    rbusMessage_RemoveAllListeners(handle);
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
     if(handleInfo->subscriptions != NULL)
diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index ba0468e..2ee29fc 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -261,6 +261,8 @@ rbusError_t rbusMessage_RemoveAllListeners(
         free(ctx->expression);
         free(ctx);
     }
+    rtVector_Destroy(handle->messageCallbacks, NULL);
+    handle->messageCallbacks = NULL;
     RBUS_MESSAGE_MUTEX_UNLOCK();
     return RBUS_ERROR_SUCCESS;
 }
-- 
2.43.0


From b249eb3417eb40ba68959a7a714f4c75440b1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 18/71] fix: rbuscore: tear the registries down under their
 mutexes and leave none dangling

---
 src/core/rbuscore.c      | 29 ++++++++++++++++++-----------
 src/rtmessage/rtVector.c | 12 ++++++++++++
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 7f059fe..4af311b 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -390,28 +390,38 @@ static void perform_init()
 static void perform_cleanup()
 {
     size_t i, sz;
+    rtVector subscriptions;
 
     RBUSCORELOG_DEBUG("Performing cleanup");
 
     /* joins the connections' threads, which take the mutex */
     _rbuscore_destroy_clientPrivate_connections();
 
-    lock();
-
-    rtVector_Destroy(g_server_objects, server_object_destroy);
-
+    directServerLock();
     rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
+    gListOfServerDirectDMLs = NULL;
+    directServerUnlock();
+
+    directClientLock();
     rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
+    gListOfClientDirectDMLs = NULL;
+    directClientUnlock();
 
-    sz = rtVector_Size(g_event_subscriptions_for_client);
+    lock();
+    rtVector_Destroy(g_server_objects, server_object_destroy);
+    g_server_objects = NULL;
+    subscriptions = g_event_subscriptions_for_client;
+    g_event_subscriptions_for_client = NULL;
+    unlock();
+
+    sz = rtVector_Size(subscriptions);
     if(sz>0)
     {
         RBUSCORELOG_INFO("Cancelling active event subscriptions.");
-        unlock();
         for(i = 0; i < sz; ++i)
         {
             size_t i2, sz2;
-            client_subscription_t sub = rtVector_At(g_event_subscriptions_for_client, i);
+            client_subscription_t sub = rtVector_At(subscriptions, i);
 
             sz2 = rtVector_Size(sub->events);
             for(i2 = 0; i2 < sz2; i2++)
@@ -420,11 +430,8 @@ static void perform_cleanup()
                 send_subscription_request(sub->object, event->name, false, NULL, NULL, 0, false, NULL, false);
             }
         }
-        lock();
     }
-    rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
-
-    unlock();
+    rtVector_Destroy(subscriptions, client_subscription_destroy);
 }
 
 
diff --git a/src/rtmessage/rtVector.c b/src/rtmessage/rtVector.c
index 99827ea..6d1eab0 100644
--- a/src/rtmessage/rtVector.c
+++ b/src/rtmessage/rtVector.c
@@ -93,6 +93,10 @@ rtError
 rtVector_RemoveItem(rtVector v, void* item, rtVector_Cleanup destroyer)
 {
   size_t i;
+
+  if (!v)
+    return RT_ERROR_INVALID_ARG;
+
   for (i = 0; i < v->count; ++i)
   {
     if (v->data[i] == item)
@@ -127,6 +131,10 @@ rtError
 rtVector_RemoveItemByCompare(rtVector v, const void* comparison, rtVector_Compare compare, rtVector_Cleanup destroyer)
 {
   size_t i;
+
+  if (!v)
+    return RT_ERROR_INVALID_ARG;
+
   for (i = 0; i < v->count; ++i)
   {
     if (compare(v->data[i], comparison) == 0)
@@ -185,6 +193,10 @@ void*
 rtVector_Find(rtVector v, const void* comparison, rtVector_Compare compare)
 {
   size_t i;
+
+  if (!v)
+    return NULL;
+
   for (i = 0; i < v->count; ++i)
   {
     if(compare)
-- 
2.43.0


From ea1c732a7205b05c9fe7cc814759465cf8d3ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 19/71] fix: rtmessage: let the result of the decrement itself
 decide who destroys a shared object

---
 src/rtmessage/rtAtomic.h     | 14 ++++++++++----
 src/rtmessage/rtMessage.c    |  5 ++---
 src/rtmessage/rtRetainable.c |  5 ++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtAtomic.h b/src/rtmessage/rtAtomic.h
index 2f6210f..f0f02b5 100644
--- a/src/rtmessage/rtAtomic.h
+++ b/src/rtmessage/rtAtomic.h
@@ -55,17 +55,23 @@ static inline void rt_atomic_fetch_add(atomic_int* var, int value)
 #endif
 }
 
-static inline void rt_atomic_fetch_sub(atomic_int* var, int value)
+/* returns the value var had before the subtraction */
+static inline int rt_atomic_fetch_sub(atomic_int* var, int value)
 {
 #if defined(RT_ATOMIC_HAS_ATOMIC_FETCH)
-    __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
+    return __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
 #elif defined(RT_ATOMIC_HAS_SYNC_FETCH)
-    __sync_fetch_and_sub(var, value);
+    return __sync_fetch_and_sub(var, value);
 #else
+    int previous = 0;
     pthread_mutex_lock(&g_atomic_mutex);
     if(NULL != var)
-        *(var) = *(var) - value;
+    {
+        previous = *(var);
+        *(var) = previous - value;
+    }
     pthread_mutex_unlock(&g_atomic_mutex);
+    return previous;
 #endif
 }
 
diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 99d9947..3f08793 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -617,9 +617,8 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
-  if (m->count != 0)
-    rt_atomic_fetch_sub(&m->count, 1);
-  if (m->count == 0)
+  /* m may be freed by another thread as soon as the count was dropped */
+  if (rt_atomic_fetch_sub(&m->count, 1) == 1)
     rtMessage_Destroy(m);
   return RT_OK;
 }
diff --git a/src/rtmessage/rtRetainable.c b/src/rtmessage/rtRetainable.c
index c7d82e2..a6b3363 100644
--- a/src/rtmessage/rtRetainable.c
+++ b/src/rtmessage/rtRetainable.c
@@ -27,9 +27,8 @@ void rtRetainable_retainInternal(rtRetainable* r)
 
 void rtRetainable_releaseInternal(rtRetainable* r, void (*destructor)(rtRetainable*))
 {
-    rt_atomic_fetch_sub(&r->refCount, 1);
-
-    if(r->refCount == 0)
+    /* r may be freed by another thread as soon as the count was dropped */
+    if(rt_atomic_fetch_sub(&r->refCount, 1) == 1)
     {
         destructor(r);
     }
-- 
2.43.0


From 953293f6a7adf6fbef5f31a51ff833852aea45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 20/71] fix: rbuscore: tell the provider of a new or gone
 listener without holding the global mutex

---
 src/core/rbuscore.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 4af311b..04aac23 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -140,7 +140,8 @@ void server_event_destroy(void* p)
     free(event);
 }
 
-void server_event_addListener(server_event_t event, char const* listener)
+/* returns true if the listener was added, for the caller to tell the provider once it released the mutex */
+bool server_event_addListener(server_event_t event, char const* listener)
 {
     if(!listener)
     {
@@ -150,20 +151,18 @@ void server_event_addListener(server_event_t event, char const* listener)
     {
         rtVector_PushBack(event->listeners, strdup(listener));
 
-        if(event->sub_callback)
-        {
-            event->sub_callback(event->object->name, event->name, listener, 1, NULL, event->sub_data);
-        }
-
         RBUSCORELOG_INFO("Listener %s added for event %s.", listener, event->name);
+        return true;
     }
     else
     {
         RBUSCORELOG_WARN("Listener %s is already registered for event %s.", listener, event->name);
     }
+    return false;
 }
 
-void server_event_removeListener(server_event_t event, char const* listener)
+/* returns true if the listener was removed, for the caller to tell the provider once it released the mutex */
+bool server_event_removeListener(server_event_t event, char const* listener)
 {
     if(!listener)
     {
@@ -174,16 +173,13 @@ void server_event_removeListener(server_event_t event, char const* listener)
         RBUSCORELOG_WARN("Removing listener %s for event %s.", listener, event->name);
 
         rtVector_RemoveItemByCompare(event->listeners, listener, rtVector_Compare_String, rtVector_Cleanup_Free);
-
-        if(event->sub_callback)
-        {
-            event->sub_callback(event->object->name, event->name, listener, 0, NULL, event->sub_data);
-        }
+        return true;
     }
     else
     {
         RBUSCORELOG_ERROR("Listener %s not found for event %s.", listener, event->name);
     }
+    return false;
 }
 
 int server_object_compare(const void* left, const void* right)
@@ -236,15 +232,22 @@ rbusCoreError_t server_object_subscription_handler(server_object_t obj, const ch
 
     if(server_event)
     {
+        bool changed;
+        rbus_event_subscribe_callback_t sub_callback = server_event->sub_callback;
+        void* sub_data = server_event->sub_data;
         if(added)
         {
-            server_event_addListener(server_event, subscriber);
+            changed = server_event_addListener(server_event, subscriber);
         }
         else
         {
-            server_event_removeListener(server_event, subscriber);
+            changed = server_event_removeListener(server_event, subscriber);
         }
         unlock();
+        if(changed && sub_callback)
+        {
+            sub_callback(obj->name, event, subscriber, added ? 1 : 0, NULL, sub_data);
+        }
         return RBUSCORE_SUCCESS;
     }
     else
-- 
2.43.0


From 9c6d528b3cb59f2c15fd72c78f32ce453f4cc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 21/71] fix: rtSemaphore: wait again after a spurious wake-up
 and take the count once

---
 src/rtmessage/rtSemaphore.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..cc5a2e3 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -98,22 +98,18 @@ rtError rtSemaphore_Wait(rtSemaphore sem)
 rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
 {
   int rc = RT_OK;
-  int err;
+  int err = 0;
   ERROR_CHECK(pthread_mutex_lock(&sem->m));
-  if(sem->v > 0)
+  while(sem->v <= 0 && err == 0)
   {
-    sem->v--;
-    ERROR_CHECK(pthread_mutex_unlock(&sem->m));
-    return RT_OK;
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
-  if(err == 0)
+  if(sem->v > 0)
   {
-    if(sem->v > 0)
-      sem->v--;
+    sem->v--;
   }
   else
   {
-- 
2.43.0


From eac7361ed2f340707181dce373bf4212fb6610f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 22/71] fix: rtThreadPool: an expiring worker must not leave a
 queued task behind, nor a failed RunTask its item

---
 src/rtmessage/rtThreadPool.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 8a9785a..39903b3 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -139,7 +139,9 @@ void* rtThread_WorkerThreadFunc(void* data)
       rtLog_Debug("%s pthread_cond_wait before", __FUNCTION__);
       rc = pthread_cond_timedwait(&pool->taskCond, &pool->poolLock, &expireTime);
       rtLog_Debug("%s pthread_cond_wait after rc=%d", __FUNCTION__, rc);
-      if(rc == ETIMEDOUT)
+      size_t pending;
+      rtList_GetSize(pool->taskList, &pending);
+      if(rc == ETIMEDOUT && pending == 0)/*a task may have been queued just as the time was up*/
       { 
         rtLog_Debug("%s thread expired", __FUNCTION__);
         break;
@@ -305,6 +307,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     task = rt_try_malloc(sizeof(struct _rtThreadTask));
     if(!task)
     {
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return rtErrorFromErrno(ENOMEM);
     }
@@ -325,6 +328,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     rtLog_Debug("%s creating new thread", __FUNCTION__);
     if((err = rtThreadPool_CreateWorkerThread(pool)) != RT_OK)
     {
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return err;
     }
-- 
2.43.0


From 76c90df9a26e4daa7d98950857a8953e723ab3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 23/71] fix: rbus: the interval and value-change threads act
 only when their period is over and they still run

---
 src/rbus/rbus_intervalsubscription.c | 14 +++++++++++---
 src/rbus/rbus_valuechange.c          |  9 ++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index 5fe0998..941d300 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -122,15 +122,23 @@ static void* PublishingThreadFunc(void* rec)
         rtTime_t timeout;
         rtTimespec_t ts;
         rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
+        do
+        {
+            err = pthread_cond_timedwait(&sub_rec->cond,
+                    &sub_rec->mutex,
+                    rtTime_ToTimespec(&timeout, &ts));
+        } while(err == 0 && sub_rec->running);
 
         if(err != 0 && err != ETIMEDOUT)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
 
+        if(!sub_rec->running)
+        {
+            break;
+        }
+
         rbusProperty_t properties = NULL;
         rbusObject_t data;
         rbusObject_Init(&data, NULL);
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..8e9b1a0 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -138,9 +138,12 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
 
         rtTime_Later(NULL, RBUS_VALUECHANGE_PERIOD, &timeout);
         
-        err = pthread_cond_timedwait(&gVC->cond, 
-                                    &gVC->mutex, 
-                                    rtTime_ToTimespec(&timeout, &ts));
+        do
+        {
+            err = pthread_cond_timedwait(&gVC->cond, 
+                                        &gVC->mutex, 
+                                        rtTime_ToTimespec(&timeout, &ts));
+        } while(err == 0 && gVC->running);
 
         if(err != 0 && err != ETIMEDOUT)
         {
-- 
2.43.0


From e6016c7b274b580bd6ab0f51d414b5edd8747ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 24/71] fix: rtThreadPool decided and ran its destruction after
 giving up the pool, left its workers unjoined and undetached and ignored a
 failure to start one

---
 src/rtmessage/rtThreadPool.c | 64 +++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 39903b3..05a633a 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -68,14 +68,17 @@ void rtThreadPool_CleanupThread(void* data)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
-void rtThreadPool_TryRealDestroy(rtThreadPool pool)
+/*
+ * To be decided with the poolLock held, by whoever ends last: the last worker of a pool that is shut down or
+ * the thread that shuts down a pool without workers. Nobody else may touch the pool afterwards.
+ */
+static int rtThreadPool_ShouldDestroy(rtThreadPool pool)
+{
+  return pool->threadCount == 0 && pool->isShutdown == 1;
+}
+
+static void rtThreadPool_RealDestroy(rtThreadPool pool)
 {
-  int shouldDestroy;
-  pthread_mutex_lock(&pool->poolLock);
-  shouldDestroy = pool->threadCount == 0 && pool->isShutdown == 1;
-  pthread_mutex_unlock(&pool->poolLock);
-  if(!shouldDestroy)
-    return;
   rtLog_Debug("%s enter", __FUNCTION__);
   rtList_Destroy(pool->threadList, rtThreadPool_CleanupThread);
   rtList_Destroy(pool->taskList, rtList_Cleanup_Free);
@@ -117,8 +120,8 @@ void* rtThread_WorkerThreadFunc(void* data)
   rtLog_Debug("%s enter", __FUNCTION__);
   rtThread thread = (rtThread)data;
   rtThreadPool pool = thread->pool;
+  int last;
   pthread_mutex_lock(&pool->poolLock);
-  pool->threadCount++;
   while(pool->isRunning)
   {
     while(pool->isRunning && rtThread_DequeTask(thread))
@@ -150,14 +153,18 @@ void* rtThread_WorkerThreadFunc(void* data)
   }
   pool->threadCount--;
   rtList_RemoveItemWithData(pool->threadList, thread, rtThreadPool_CleanupThread);
+  last = rtThreadPool_ShouldDestroy(pool);
   pthread_mutex_unlock(&pool->poolLock);
-  rtThreadPool_TryRealDestroy(pool);
+  if(last)
+    rtThreadPool_RealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return NULL;
 }
 
+/*called with the poolLock held: the worker is counted before it can run*/
 rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
 {
+  int rc;
   rtThread thread;
   pthread_attr_t attr;
   rtLog_Debug("%s enter", __FUNCTION__);
@@ -168,8 +175,16 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
   pthread_attr_init(&attr);
   if(pool->stackSize > 0)
     pthread_attr_setstacksize(&attr, pool->stackSize);
-  pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
+  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);/*nobody joins the workers*/
+  rc = pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
   pthread_attr_destroy(&attr);
+  if(rc != 0)
+  {
+    rtLog_Error("%s pthread_create failed %d", __FUNCTION__, rc);
+    free(thread);
+    return rtErrorFromErrno(rc);
+  }
+  pool->threadCount++;
   rtList_PushBack(pool->threadList, thread, NULL);
   rtLog_Debug("%s exit", __FUNCTION__);
   return RT_OK;
@@ -282,12 +297,15 @@ rtError rtThreadPool_StopAllThread(rtThreadPool pool, int waitTimeMS)
 rtError rtThreadPool_Destroy(rtThreadPool pool, int waitTimeMS)
 {
   rtError err;
+  int last;
   rtLog_Debug("%s enter", __FUNCTION__);
   err = rtThreadPool_StopAllThread(pool, waitTimeMS);
   pthread_mutex_lock(&pool->poolLock);
   pool->isShutdown = 1;
+  last = rtThreadPool_ShouldDestroy(pool);
   pthread_mutex_unlock(&pool->poolLock);
-  rtThreadPool_TryRealDestroy(pool);
+  if(last)
+    rtThreadPool_RealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return err;
 }
@@ -298,6 +316,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   rtError err = RT_OK;
   rtListItem item;
   rtThreadTask task;
+  size_t pending;
   pthread_mutex_lock(&pool->poolLock);
   //enque task
   rtList_PushBack(pool->taskList, rtListReuseData/*reuse data to avoid many allocs*/, &item);
@@ -316,14 +335,9 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   }
   task->func = func;
   task->userData = userData;
-  //find and existing thread to handle the task
-  if(pool->busyThreadCount < pool->threadCount)
-  {
-    rtLog_Debug("%s pthread_cond_signal before", __FUNCTION__);
-    pthread_cond_signal(&pool->taskCond);
-    rtLog_Debug("%s pthread_cond_signal after", __FUNCTION__);
-  }
-  else if(pool->threadCount < pool->maxThreadCount)
+  //find and existing thread to handle the task: one for each task that waits, this one included
+  rtList_GetSize(pool->taskList, &pending);
+  if(pool->busyThreadCount + pending > pool->threadCount && pool->threadCount < pool->maxThreadCount)
   {
     rtLog_Debug("%s creating new thread", __FUNCTION__);
     if((err = rtThreadPool_CreateWorkerThread(pool)) != RT_OK)
@@ -332,13 +346,19 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
         pthread_mutex_unlock(&pool->poolLock);
         return err;
     }
-    if(pool->threadCount == pool->maxThreadCount - 1)
+    if(pool->threadCount == pool->maxThreadCount)
       rtLog_Debug("%s reached max thread count %zu", __FUNCTION__, pool->maxThreadCount);
   }
   else
   {
-    rtLog_Debug("%s at max thread count %zu", __FUNCTION__, pool->maxThreadCount);
-    err = RT_ERROR_THREADPOOL_TASK_PENDING;
+    rtLog_Debug("%s pthread_cond_signal before", __FUNCTION__);
+    pthread_cond_signal(&pool->taskCond);
+    rtLog_Debug("%s pthread_cond_signal after", __FUNCTION__);
+    if(pool->busyThreadCount + pending > pool->threadCount)
+    {
+      rtLog_Debug("%s at max thread count %zu", __FUNCTION__, pool->maxThreadCount);
+      err = RT_ERROR_THREADPOOL_TASK_PENDING;
+    }
   }
   pthread_mutex_unlock(&pool->poolLock);
   rtLog_Debug("%s exit", __FUNCTION__);
-- 
2.43.0


From 26b31509e08f68345d348ef7920803097b2d782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 25/71] fix: the interval publishing thread outlived its
 subscription, and its end deadlocked with an unsubscribe; its start was not
 checked

---
 src/rbus/rbus_intervalsubscription.c | 51 +++++++++++++++++++---------
 src/rbus/rbus_subscriptions.c        |  5 +++
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index 941d300..b8a9e33 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -209,13 +209,30 @@ static void* PublishingThreadFunc(void* rec)
         }
     }
     ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
-    if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
-        ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+    /* The duration is over: this thread removes its subscription, unless somebody is removing it already. That one
+       holds handle_subsMutex until this thread has ended, so the thread must not wait for the mutex. */
+    while(duration_complete)
+    {
+        int running;
+        if(pthread_mutex_trylock(&handleInfo->handle_subsMutex) == 0)
+        {
+            ERROR_CHECK(pthread_detach(pthread_self()));
+            ERROR_CHECK(pthread_mutex_lock(&gMutex));
+            rtVector_RemoveItem(gRecord, sub_rec, NULL);
+            ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+            rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
+            sub_Free(sub_rec);
+            break;
+        }
+        ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+        running = sub_rec->running;
+        ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
+        if(!running)
+        {
+            break;
+        }
+        usleep(10000);
     }
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
     return NULL;
@@ -262,7 +279,14 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
 
         /* Thread create */
         sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
+        int err = pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
+        if(err != 0)
+        {
+            RBUSLOG_ERROR("Error %d:%s running command pthread_create", err, strerror(err));
+            ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+            sub_Free(sub_rec);
+            return RBUS_ERROR_OUT_OF_RESOURCES;
+        }
 
         rtVector_PushBack(gRecord, sub_rec);
     }
@@ -270,7 +294,7 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
     return RBUS_ERROR_SUCCESS; 
 }
 
-/* Delete Subscription Record from global record and stop it's running thread */
+/* Delete Subscription Record from global record and stop it's running thread. Called with handle_subsMutex held. */
 void rbusInterval_RemoveSubscriptionRecord(
         rbusHandle_t handle,
         elementNode* propNode,
@@ -287,22 +311,17 @@ void rbusInterval_RemoveSubscriptionRecord(
 
     if(rec)
     {
-        bool running;
         ERROR_CHECK(pthread_mutex_lock(&rec->mutex));
-        running = rec->running;
         rec->running = 0;
         ERROR_CHECK(pthread_cond_signal(&rec->cond));
         ERROR_CHECK(pthread_mutex_unlock(&rec->mutex));
-        if(running)
-        {
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
-        }
+        ERROR_CHECK(pthread_join(rec->thread, NULL));
         ERROR_CHECK(pthread_mutex_lock(&gMutex));
         rtVector_RemoveItem(gRecord, rec, sub_Free);
         ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     }
     else
     {
-        RBUSLOG_ERROR("value not found\n");
+        RBUSLOG_DEBUG("value not found\n");
     }
 }
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 8370f3e..cda49d6 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -18,6 +18,7 @@
 */
 
 #include "rbus_subscriptions.h"
+#include "rbus_intervalsubscription.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
 #include <rtMemory.h>
@@ -75,6 +76,10 @@ static void subscriptionFree(void* p)
     rtListItem item;
     VERIFY_NULL(sub);
 
+    /*its publishing thread, if it has one, uses it until it was stopped*/
+    if(sub->interval)
+        rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub);
+
     rtList_GetFront(sub->instances, &item);
     while(item)
     {
-- 
2.43.0


From 48c3032655805d765e25fcc37f83685657931dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 26/71] fix: a value-change polling thread that could not be
 started was taken to run

---
 src/rbus/rbus_valuechange.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index 8e9b1a0..d62da98 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -322,8 +322,11 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         if(!gVC->running)
         {
-            gVC->running = 1;
-            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            int err = pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            if(err == 0)
+                gVC->running = 1;/*the thread looks at it with the mutex held*/
+            else
+                RBUSLOG_ERROR("Error %d:%s running command pthread_create", err, strerror(err));
         }
 
         UNLOCK();//############ UNLOCK ############
-- 
2.43.0


From 7c89285417de7042cf7f123b8a3ce71d1d231b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 27/71] fix: the element tree's mutex could be initialised
 twice by two first registrations

---
 src/rbus/rbus_element.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..3ef7295 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -42,6 +42,7 @@
 
 elementNode* pruneNode = NULL;
 pthread_mutex_t element_mutex;
+static pthread_mutex_t init_mutex = PTHREAD_MUTEX_INITIALIZER;
 static int mutex_init = 0;
 
 //****************************** UTILITY FUNCTIONS ***************************//
@@ -233,6 +234,7 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
     char buff[RBUS_MAX_NAME_LENGTH];
     pthread_mutexattr_t attrib;
 
+    ERROR_CHECK(pthread_mutex_lock(&init_mutex));
     if(!mutex_init)
     {
        ERROR_CHECK(pthread_mutexattr_init(&attrib));
@@ -240,6 +242,7 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
        ERROR_CHECK(pthread_mutex_init(&element_mutex, &attrib));
        mutex_init = 1;
     }
+    ERROR_CHECK(pthread_mutex_unlock(&init_mutex));
 
     if(currentNode == NULL || elem == NULL)
     {
-- 
2.43.0


From 4f246df79708eff5ccbadde2c38dcab662a9be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 28/71] fix: rbus_get, rbusTable_getRowNames and the discovery
 operations used null arguments

---
 src/rbus/rbus.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a57a89c..85f35da 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3418,7 +3418,7 @@ rbusError_t rbus_discoverComponentName (rbusHandle_t handle,
     {
         return RBUS_ERROR_INVALID_INPUT;
     }
-    else if ((numElements < 1) || (NULL == elementNames[0]))
+    else if ((numElements < 1) || (NULL == elementNames) || (NULL == elementNames[0]) || (NULL == numComponents) || (NULL == componentName))
     {
         RBUSLOG_WARN("Invalid input passed to rbus_discoverElementsObjects");
         return RBUS_ERROR_INVALID_INPUT;
@@ -3446,11 +3446,13 @@ rbusError_t rbus_discoverComponentDataElements (rbusHandle_t handle,
 {
     rbusCoreError_t ret;
 
-    *numElements = 0;
-    *elementNames = 0;
     UNUSED1(nextLevel);
     VERIFY_NULL(handle);
     VERIFY_NULL(name);
+    VERIFY_NULL(numElements);
+    VERIFY_NULL(elementNames);
+    *numElements = 0;
+    *elementNames = 0;
 
     ret = rbus_discoverObjectElements(name, numElements, elementNames);
 
@@ -3473,6 +3475,7 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
     VERIFY_NULL(handleInfo);
+    VERIFY_NULL(name);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -3490,6 +3493,8 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
         return RBUS_ERROR_ACCESS_NOT_ALLOWED;
     }
 
+    VERIFY_NULL(value);
+
     rbusMessage_Init(&request);
     /* Set the Component name that invokes the set */
     rbusMessage_SetString(request, handleInfo->componentName);
@@ -4675,6 +4680,8 @@ rbusError_t rbusTable_getRowNames(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
     VERIFY_NULL(handle);
+    VERIFY_NULL(tableName);
+    VERIFY_NULL(rowNames);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
-- 
2.43.0


From 7c5cb476d7ba2b191099d9977f23cf43d8bb2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 29/71] fix: rbusError_ToString had no text for nine of the
 public errors

---
 src/rbus/rbus.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 85f35da..85d93b7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6472,6 +6472,15 @@ rbusError_ToString(rbusError_t e)
     rbusError_String(RBUS_ERROR_INVALID_CONTEXT, "invalid context");
     rbusError_String(RBUS_ERROR_TIMEOUT, "timeout");
     rbusError_String(RBUS_ERROR_ASYNC_RESPONSE, "async operation in progress");
+    rbusError_String(RBUS_ERROR_INVALID_METHOD, "invalid method");
+    rbusError_String(RBUS_ERROR_NOSUBSCRIBERS, "no subscribers");
+    rbusError_String(RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST, "subscription already exists");
+    rbusError_String(RBUS_ERROR_INVALID_NAMESPACE, "invalid namespace");
+    rbusError_String(RBUS_ERROR_DIRECT_CON_NOT_EXIST, "direct connection does not exist");
+    rbusError_String(RBUS_ERROR_NOT_WRITABLE, "not writable");
+    rbusError_String(RBUS_ERROR_NOT_READABLE, "not readable");
+    rbusError_String(RBUS_ERROR_INVALID_PARAMETER_TYPE, "invalid parameter type");
+    rbusError_String(RBUS_ERROR_INVALID_PARAMETER_VALUE, "invalid parameter value");
     default:
       s = "unknown error";
   }
-- 
2.43.0


From dac7f80b6f870030e7e5d359aae11258dfff8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 30/71] fix: a frame header was accepted although its length
 was not the one it announced

---
 src/rtmessage/rtMessageHeader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rtmessage/rtMessageHeader.c b/src/rtmessage/rtMessageHeader.c
index 09d8551..12d9ea8 100644
--- a/src/rtmessage/rtMessageHeader.c
+++ b/src/rtmessage/rtMessageHeader.c
@@ -130,6 +130,10 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
   rtEncoder_DecodeUInt16(&ptr, &marker);
   if(RTMSG_HEADER_MARKER != marker)
     return RT_ERROR;
+  if(hdr->header_length != (ptr - buff)) {
+    rtLog_Warn("RTROUTED_INVALID_LENGTH: rtMessageHeader_Decode() - header_length %d", hdr->header_length);
+    return RT_ERROR;
+  }
   return RT_OK;
 }
 
-- 
2.43.0


From f5b3b18b01eafe4578772ae2978d1e43d2e17531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 31/71] fix: fixed-size buffers were written past their end by
 over-long names, addresses and options

---
 src/core/rbuscore.c           | 10 +++++-----
 src/rbus/rbus.c               | 23 ++++++++++++-----------
 src/rtmessage/rtRoutingTree.c |  8 ++++++--
 src/rtmessage/rtSocket.c      |  7 +++++++
 src/rtmessage/rtrouted.c      |  5 ++++-
 5 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 04aac23..025911b 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1617,6 +1617,9 @@ static rbusCoreError_t rbus_subscribeToEventInternal(const char * object_name,
         RBUSCORELOG_ERROR("Object name is too long.");
         return RBUSCORE_ERROR_INVALID_PARAM;
     }
+    if(NULL == event_name)
+        event_name = DEFAULT_EVENT;
+
     if(MAX_EVENT_NAME_LENGTH <= strnlen(event_name, MAX_EVENT_NAME_LENGTH))
     {
         RBUSCORELOG_ERROR("Event name is too long.");
@@ -1624,9 +1627,6 @@ static rbusCoreError_t rbus_subscribeToEventInternal(const char * object_name,
     }
 
     lock();
-   
-    if(NULL == event_name)
-        event_name = DEFAULT_EVENT;
 
     if(false == g_run_event_client_dispatch)
     {
@@ -3023,8 +3023,8 @@ rbusCoreError_t rbuscore_openPrivateConnectionToProvider(rtConnection *pPrivateC
             /* Update the Vector to avoid multiple connections */
             pNewObj = rt_malloc(sizeof(rbusClientDMLList_t));
 
-            strcpy(pNewObj->m_privateDML, pParameterName);
-            strcpy(pNewObj->m_providerName, pProviderName);
+            rtString_Copy(pNewObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH);
+            rtString_Copy(pNewObj->m_providerName, pProviderName, MAX_OBJECT_NAME_LENGTH);
             pNewObj->m_privConn = connection;
 
             rtVector_PushBack(gListOfClientDirectDMLs, pNewObj);
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 85d93b7..a6e1606 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1679,15 +1679,15 @@ exit:
     and query name like   : Device.Services.VoiceService.1.X_BROADCOM_COM_Announcement.
     final name should be  : Device.Services.VoiceService.1.X_BROADCOM_COM_Announcement.ServerAddress
  */
-static char const* _convert_reg_name_to_instance_name(char const* registrationName, char const* query, char* buffer)
+static char const* _convert_reg_name_to_instance_name(char const* registrationName, char const* query, char* buffer, int bufferLen)
 {
     int idx = 0;
     char const* preg = registrationName;
     char const* pinst= query;
 
-    while(*preg != 0 && *pinst != 0)
+    while(*preg != 0 && *pinst != 0 && idx < bufferLen - 1)
     {
-        while(*preg == *pinst)
+        while(*preg != 0 && *preg == *pinst && idx < bufferLen - 1)
         {
             buffer[idx++] = *preg;
             preg++;
@@ -1696,7 +1696,7 @@ static char const* _convert_reg_name_to_instance_name(char const* registrationNa
         
         if(*preg == '{')
         {
-            while(*pinst && *pinst != '.')
+            while(*pinst && *pinst != '.' && idx < bufferLen - 1)
                 buffer[idx++] = *pinst++;
 
             while(*preg && *preg != '.')
@@ -1705,7 +1705,7 @@ static char const* _convert_reg_name_to_instance_name(char const* registrationNa
 
         if(*pinst == 0) /*end of partial path but continue to write out the full name of child*/
         {
-            while(*preg)
+            while(*preg && idx < bufferLen - 1)
             {
                 buffer[idx++] = *preg++;
             }
@@ -1735,7 +1735,7 @@ static char const* _convert_reg_name_to_instance_name(char const* registrationNa
         }
 #endif
     }
-    buffer[idx++] = 0;
+    buffer[idx] = 0;
 
     RBUSLOG_DEBUG(" _convert_reg_name_to_instance_name");
     RBUSLOG_DEBUG("   reg: %s", registrationName);
@@ -1772,7 +1772,7 @@ static void _get_recursive_partialpath_handler(elementNode* node, char const* qu
                 char partialPath[RBUS_MAX_NAME_LENGTH];
 
                 snprintf(partialPath, RBUS_MAX_NAME_LENGTH-1, "%s.", 
-                    query ? _convert_reg_name_to_instance_name(node->fullName, query, instanceName) : node->fullName);
+                    query ? _convert_reg_name_to_instance_name(node->fullName, query, instanceName, RBUS_MAX_NAME_LENGTH) : node->fullName);
 
                 RBUSLOG_DEBUG("%*s_get_recursive_partialpath_handler calling table getHandler partialPath=%s", level*4, " ", partialPath);
 
@@ -1824,7 +1824,7 @@ static void _get_recursive_partialpath_handler(elementNode* node, char const* qu
 
                 RBUSLOG_DEBUG("%*s_get_recursive_partialpath_handler calling property getHandler node=%s", level*4, " ", child->fullName);
 
-                rbusProperty_Init(&tmpProperties, query ? _convert_reg_name_to_instance_name(child->fullName, query, instanceName) : child->fullName, NULL);
+                rbusProperty_Init(&tmpProperties, query ? _convert_reg_name_to_instance_name(child->fullName, query, instanceName, RBUS_MAX_NAME_LENGTH) : child->fullName, NULL);
                 ELM_PRIVATE_LOCK(child);
                 result = child->cbTable.getHandler(handle, tmpProperties, &options);
                 ELM_PRIVATE_UNLOCK(child);
@@ -2770,7 +2770,7 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
             char ip[128];
             // the length of 6 for "tcp://"
             char const* p = strrchr(consumerToBrokerConf + 6, ':');
-            if (!p)
+            if (!p || (size_t)(p - consumerToBrokerConf) >= sizeof(ip))
             {
                 RBUSLOG_WARN("invalid address string:%s", consumerToBrokerConf);
                 ret = RBUSCORE_ERROR_INVALID_PARAM;
@@ -2778,6 +2778,7 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
             else
             {
                 strncpy(ip, consumerToBrokerConf, (p - consumerToBrokerConf));
+                ip[p - consumerToBrokerConf] = '\0';
                 RBUSLOG_DEBUG ("parsing ip address:%s", ip);
             
                 //FIXME :: The port must be within 65535 and unique to the consumer.
@@ -6527,7 +6528,7 @@ rbusError_t rbusHandle_GetTraceContextAsString(
 
     rbus_getOpenTelemetryContext(&s, &t);
 
-    if (traceParent)
+    if (traceParent && traceParentLength > 0)
     {
         if (s)
         {
@@ -6539,7 +6540,7 @@ rbusError_t rbusHandle_GetTraceContextAsString(
             traceParent[0] = '\0';
     }
 
-    if (traceState)
+    if (traceState && traceStateLength > 0)
     {
         if (t)
         {
diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..5bbd6c1 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -132,7 +132,7 @@ static int validateExpression(const char* expr)
         expr++;	
     }
 
-    if((token_length > MAX_TOKEN_BUFFER_SIZE) || (token_count > MAX_TOKENS))
+    if((token_length >= MAX_TOKEN_BUFFER_SIZE) || (token_count >= MAX_TOKENS))
     {
         result = -1;
     }
@@ -146,7 +146,9 @@ static void tokenizeExpression(const char* expression)
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
-    while(*from)
+    if(strlen(expression) >= MAX_TOKEN_BUFFER_SIZE)
+        return; /* longer than any topic that can be registered */
+    while(*from && i < MAX_TOKENS)
     {
         workTokens[i].name = to;
         
@@ -158,6 +160,8 @@ static void tokenizeExpression(const char* expression)
             from++;
         i++;
     }
+    if(*from)
+        return; /* more tokens than any topic that can be registered */
     workTokenCount = i;
 }
 
diff --git a/src/rtmessage/rtSocket.c b/src/rtmessage/rtSocket.c
index b3b9f93..0b7db14 100644
--- a/src/rtmessage/rtSocket.c
+++ b/src/rtmessage/rtSocket.c
@@ -177,6 +177,7 @@ rtSocketStorage_FromString(struct sockaddr_storage* ss, char const* addr)
     struct sockaddr_un* un = (struct sockaddr_un*) ss;
     un->sun_family = AF_UNIX;
     strncpy(un->sun_path, addr + 7, (sizeof(un->sun_path)-1));
+    un->sun_path[sizeof(un->sun_path)-1] = '\0';
     //chmod(un->sun_path, S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH);
 
     return RT_OK;
@@ -196,6 +197,12 @@ rtSocketStorage_FromString(struct sockaddr_storage* ss, char const* addr)
     return RT_ERROR_INVALID_ARG;
   }
 
+  if ((size_t)(p-addr-6) >= sizeof(ip))
+  {
+    rtLog_Warn("invalid address string:%s", (addr+6));
+    return RT_ERROR_INVALID_ARG;
+  }
+
   strncpy(ip, addr+6, (p-addr-6));
   rtLog_Debug("parsing ip address:%s", ip);
   if (!rtSocket_IsNumeric(ip))
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..3116c1f 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1820,7 +1820,10 @@ int main(int argc, char* argv[])
         config_file = optarg;
         break;
       case 's':
-        socket_name[num_listeners++] = optarg;
+        if (num_listeners < RTMSG_MAX_LISTENING_SOCKETS)
+          socket_name[num_listeners++] = optarg;
+        else
+          rtLog_Error("ignoring listener %s, no more than %d can be used", optarg, RTMSG_MAX_LISTENING_SOCKETS);
         break;
       case 'd':
         use_no_delay = 0;
-- 
2.43.0


From 0afb1cb746427615221fb9dab43be9ca525f9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 32/71] fix: rbusValue_SetTLV copied more bytes than a value
 holds

---
 src/rbus/rbus_value.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..6083a0d 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -680,6 +680,11 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
         rbusValue_SetBytes(v, value, length);
         break;
     default:
+        if(length > sizeof(v->d))
+        {
+            RBUSLOG_ERROR("length %u is more than a value of type %d can have", length, type);
+            return;
+        }
         rbusValue_FreeInternal(v);
         v->type = type;
         memcpy(&v->d.b, value, length);
-- 
2.43.0


From 8e99d33c514d67e4a0a54db20373f2af7dfa9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 33/71] fix: rbusValue_Compare tells different times, 64 bit
 integers and empty values apart, rbusValue_Copy copies properties and objects

Two times that differed by a single byte were reported equal without being
looked at, integers beyond 2^53 were compared after rounding to a double, a
longer byte array was compared past the end of the shorter one, a string or
bytes value without data was dereferenced, and copying a property or object
value lost it.
---
 src/rbus/rbus_value.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 6083a0d..43b4047 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -633,7 +633,7 @@ uint8_t const* rbusValue_GetV(rbusValue_t v)
     {
     case RBUS_STRING:
     case RBUS_BYTES:
-        return v->d.bytes->data;
+        return v->d.bytes ? v->d.bytes->data : NULL;
     default:
         return (uint8_t const*)&v->d.b;
     }
@@ -645,7 +645,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
         return 1;
     switch(v->type)
     {
-    case RBUS_STRING:       return v->d.bytes->posWrite; 
+    case RBUS_STRING:       return v->d.bytes ? v->d.bytes->posWrite : 0;
     case RBUS_BOOLEAN:      return sizeof(bool);
     case RBUS_INT32:        return sizeof(int32_t);
     case RBUS_UINT32:       return sizeof(uint32_t);
@@ -660,7 +660,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
     case RBUS_SINGLE:       return sizeof(float);
     case RBUS_DOUBLE:       return sizeof(double);
     case RBUS_DATETIME:     return sizeof(rbusDateTime_t);
-    case RBUS_BYTES:        return v->d.bytes->posWrite;
+    case RBUS_BYTES:        return v->d.bytes ? v->d.bytes->posWrite : 0;
     default:                return 0;
     }
 }
@@ -915,6 +915,12 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     if((!v1)||(!v2))
         return -1;
 
+    /*a double cannot hold every 64 bit integer, so values of the same type are compared in that type*/
+    if(v1->type == RBUS_INT64 && v2->type == RBUS_INT64)
+        return v1->d.i64 == v2->d.i64 ? 0 : (v1->d.i64 < v2->d.i64 ? -1 : 1);
+    if(v1->type == RBUS_UINT64 && v2->type == RBUS_UINT64)
+        return v1->d.u64 == v2->d.u64 ? 0 : (v1->d.u64 < v2->d.u64 ? -1 : 1);
+
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
@@ -937,6 +943,10 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
             return 1;
     }
 
+    /*a string or bytes value set with NULL has no buffer*/
+    if((v1->type == RBUS_STRING || v1->type == RBUS_BYTES) && !(v1->d.bytes && v2->d.bytes))
+        return v1->d.bytes ? 1 : (v2->d.bytes ? -1 : 0);
+
     switch(v1->type)
     {
     case RBUS_STRING:
@@ -945,7 +955,8 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        int len = v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite;
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, len);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
@@ -954,7 +965,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
         /*apply timezone and diff the times*/
@@ -997,7 +1008,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
         else if(rbusValue_GetProperty(v1))
             return 1;
         else
-            return -1;
+            return rbusValue_GetProperty(v2) ? -1 : 0;
     }
     case RBUS_OBJECT:
     {
@@ -1006,7 +1017,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
         else if(rbusValue_GetObject(v1))
             return 1;
         else
-            return -1;
+            return rbusValue_GetObject(v2) ? -1 : 0;
     }
     case RBUS_NONE:
     default:
@@ -1055,8 +1066,10 @@ void rbusValue_Copy(rbusValue_t dest, rbusValue_t source)
         }
         break;
     case RBUS_PROPERTY:
+        rbusValue_SetProperty(dest, source->d.property);
+        break;
     case RBUS_OBJECT:
-        RBUSLOG_INFO("PROPERTY/OBJECT NOT SUPPORTED YET"); /* TODO */
+        rbusValue_SetObject(dest, source->d.object);
         break;
     default:
         dest->type = source->type;
-- 
2.43.0


From 42461ed9d2ea515368974a704e7e302892bf5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 34/71] fix: a received value of unknown type or of the wrong
 length is refused

rbusValue_SetTLV stored any type tag with any length up to the size of the
largest type and then only asserted that they match, and took a string's end
from the data instead of its length, so a peer could abort the process or make
it read past the message. Fields which could not be read were used
uninitialised.
---
 src/rbus/rbus.c       | 61 +++++++++++++++++++++++++++----------------
 src/rbus/rbus_value.c | 12 +++++++--
 2 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a6e1606..7348967 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -495,10 +495,11 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
 
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 {
-    uint8_t const* data;
+    uint8_t const* data = NULL;
     bool rc = true;
-    uint32_t length;
-    int type;
+    uint32_t length = 0;
+    int type = RBUS_NONE;
+    rtError err = RT_OK;
     char const* pBuffer = NULL;
 
     if (!value)
@@ -509,15 +510,19 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 
     rbusValue_Init(value);
 
-    rbusMessage_GetInt32(msg, (int*) &type);
+    if(rbusMessage_GetInt32(msg, (int*) &type) != RT_OK)
+    {
+        RBUSLOG_WARN("no type of value");
+        return RBUS_ERROR_INVALID_INPUT;
+    }
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value pop type=%d", type);
 #endif
     if(type>=RBUS_LEGACY_STRING && type<=RBUS_LEGACY_NONE)
     {
-        rbusMessage_GetString(msg, &pBuffer);
-        RBUSLOG_DEBUG("Received Param Value in string : [%s]", pBuffer);
-        rc = _parse_rbusData_to_value (pBuffer, type, *value);
+        err = rbusMessage_GetString(msg, &pBuffer);
+        RBUSLOG_DEBUG("Received Param Value in string : [%s]", pBuffer ? pBuffer : "");
+        rc = (err == RT_OK) && _parse_rbusData_to_value (pBuffer, type, *value);
         if(!rc)
         {
             RBUSLOG_WARN("RBUS_INVALID_INPUT");
@@ -543,58 +548,70 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
         }
         else
         {
-            int32_t ival;
-            int64_t i64;
-            double fval;
+            int32_t ival = 0;
+            int64_t i64 = 0;
+            double fval = 0;
 
             switch(type)
             {
                 case RBUS_INT16:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt16(*value, (int16_t)ival);
                     break;
                 case RBUS_UINT16:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt16(*value, (uint16_t)ival);
                     break;
                 case RBUS_INT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt32(*value, (int32_t)ival);
                     break;
                 case RBUS_UINT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt32(*value, (uint32_t)ival);
 
                     break;
                 case RBUS_INT64:
                 {
-                    rbusMessage_GetInt64(msg, &i64);
+                    err = rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetInt64(*value, (int64_t)i64);
                     break;
                 }
                 case RBUS_UINT64:
                 {
-                    rbusMessage_GetInt64(msg, &i64);
+                    err = rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetUInt64(*value, (uint64_t)i64);
                     break;
                 }
                 case RBUS_SINGLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                    err = rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetSingle(*value, (float)fval);
                     break;
                 case RBUS_DOUBLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                    err = rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetDouble(*value, (double)fval);
                     break;
-                case RBUS_DATETIME:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
+                case RBUS_NONE:
+                    err = rbusMessage_GetBytes(msg, &data, &length);
+                    break;
+                case RBUS_STRING:
+                    err = rbusMessage_GetBytes(msg, &data, &length);
+                    if(length == 0) /*a string set with NULL*/
+                        rbusValue_SetString(*value, NULL);
+                    else
+                        rbusValue_SetTLV(*value, type, length, data);
                     break;
                 default:
-                    rbusMessage_GetBytes(msg, &data, &length);
+                    err = rbusMessage_GetBytes(msg, &data, &length);
                     rbusValue_SetTLV(*value, type, length, data);
                     break;
             }
+            /*a type which is not known or data which is not of this type was refused*/
+            if(err != RT_OK || rbusValue_GetType(*value) != (rbusValueType_t)type)
+            {
+                RBUSLOG_WARN("value of type %d cannot be read", type);
+                return RBUS_ERROR_INVALID_INPUT;
+            }
 
 #if DEBUG_SERIALIZER
             char* sv = rbusValue_ToString(*value,0,0);
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 43b4047..96604ee 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -674,15 +674,22 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
     {
     /*Calling rbusValue_SetString/rbusValue_SetBuffer so the value's internal buffer is created.*/
     case RBUS_STRING:
+        if(length == 0 || strnlen((char const*)value, length) + 1 != length)
+        {
+            RBUSLOG_ERROR("a string of length %u does not end there", length);
+            return;
+        }
         rbusValue_SetString(v, (char const*)value);
         break;
     case RBUS_BYTES:
         rbusValue_SetBytes(v, value, length);
         break;
     default:
-        if(length > sizeof(v->d))
+    {
+        struct _rbusValue tmp = {.type = type};
+        if(length == 0 || length != rbusValue_GetL(&tmp))
         {
-            RBUSLOG_ERROR("length %u is more than a value of type %d can have", length, type);
+            RBUSLOG_ERROR("length %u is not the length of a value of type %d", length, type);
             return;
         }
         rbusValue_FreeInternal(v);
@@ -690,6 +697,7 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
         memcpy(&v->d.b, value, length);
         break;
     }
+    }
     assert(rbusValue_GetL(v) == length);
 }
 
-- 
2.43.0


From 67f2eefff8e2598212db7a4ccb8be5e4a2618e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 35/71] fix: stored values are read within what was written,
 and values without data can be stored

rbusBuffer_Read compared with the allocated size and refused the last byte of
it, so a buffer filled to the end could not be read back while bytes never
written could; what failed to be read was still converted and handed out;
rbusBuffer_ReadString and ReadBytes took the length from the wrong position
(ReadBytes also overwrote the caller's pointer); a string without terminator
or an unknown type in the file aborted the provider, as did storing a value
which is empty.
---
 src/rbus/rbus_buffer.c | 39 +++++++++++++++++++++++++--------------
 src/rbus/rbus_value.c  | 31 ++++++++++++++++++++++++++-----
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..416a308 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,7 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    if(len < 0 || len > buff->posWrite - buff->posRead)
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
@@ -271,8 +271,9 @@ int rbusBuffer_ReadString(rbusBuffer_t const buff, char** s, int* len)
 {
     if(!buff)
         return -1;
-    *len = buff->posRead;
-    *s = rt_malloc(buff->posRead+1);/*TODO is +1 needed?*/
+    *len = buff->posWrite - buff->posRead;
+    *s = rt_malloc(*len+1);
+    (*s)[*len] = 0;
     return rbusBuffer_Read(buff, *s, *len);
 }
 
@@ -308,7 +309,8 @@ int rbusBuffer_ReadInt16(rbusBuffer_t const buff, int16_t* i16)
 {
     int16_t temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(int16_t));
-    *i16 = rbusLittleToHostInt16(temp);
+    if(rc == 0)
+        *i16 = rbusLittleToHostInt16(temp);
     return rc;
 }
 
@@ -316,7 +318,8 @@ int rbusBuffer_ReadUInt16(rbusBuffer_t const buff, uint16_t* u16)
 {
     uint16_t temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(uint16_t));
-    *u16 = rbusLittleToHostInt16(temp);
+    if(rc == 0)
+        *u16 = rbusLittleToHostInt16(temp);
     return rc;
 }
 
@@ -324,7 +327,8 @@ int rbusBuffer_ReadInt32(rbusBuffer_t const buff, int32_t* i32)
 {
     int32_t temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(int32_t));
-    *i32 = rbusLittleToHostInt32(temp);
+    if(rc == 0)
+        *i32 = rbusLittleToHostInt32(temp);
     return rc;
 }
 
@@ -332,7 +336,8 @@ int rbusBuffer_ReadUInt32(rbusBuffer_t const buff, uint32_t* u32)
 {
     uint32_t temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(uint32_t));
-    *u32 = rbusLittleToHostInt32(temp);
+    if(rc == 0)
+        *u32 = rbusLittleToHostInt32(temp);
     return rc;
 }
 
@@ -340,7 +345,8 @@ int rbusBuffer_ReadInt64(rbusBuffer_t const buff, int64_t* i64)
 {
     int64_t temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(int64_t));
-    *i64 = rbusLittleToHostInt64(temp);
+    if(rc == 0)
+        *i64 = rbusLittleToHostInt64(temp);
     return rc;
 }
 
@@ -348,7 +354,8 @@ int rbusBuffer_ReadUInt64(rbusBuffer_t const buff, uint64_t* u64)
 {
     uint64_t temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(uint64_t));
-    *u64 = rbusLittleToHostInt64(temp);
+    if(rc == 0)
+        *u64 = rbusLittleToHostInt64(temp);
     return rc;
 }
 
@@ -356,7 +363,8 @@ int rbusBuffer_ReadSingle(rbusBuffer_t const buff, float* f32)
 {
     float temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(float));
-    *f32 = rbusLittleToHostSingle(temp);
+    if(rc == 0)
+        *f32 = rbusLittleToHostSingle(temp);
     return rc;
 }
 
@@ -364,7 +372,8 @@ int rbusBuffer_ReadDouble(rbusBuffer_t const buff, double* f64)
 {
     double temp;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(double));
-    *f64 = rbusLittleToHostDouble(temp);
+    if(rc == 0)
+        *f64 = rbusLittleToHostDouble(temp);
     return rc;
 }
 
@@ -374,6 +383,8 @@ int rbusBuffer_ReadDateTime(rbusBuffer_t const buff, rbusDateTime_t* tv)
     if(!tv)
         return -1;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(rbusDateTime_t));
+    if(rc != 0)
+        return rc;
     tv->m_time.tm_sec   = rbusLittleToHostInt32(temp.m_time.tm_sec);
     tv->m_time.tm_min   = rbusLittleToHostInt32(temp.m_time.tm_min);
     tv->m_time.tm_hour  = rbusLittleToHostInt32(temp.m_time.tm_hour);
@@ -393,7 +404,7 @@ int rbusBuffer_ReadBytes(rbusBuffer_t const buff, uint8_t** bytes, int* len)
 {
     if(!buff)
         return -1;
-    *len = buff->posWrite;
-    *bytes = rt_malloc(buff->posWrite);
-    return rbusBuffer_Read(buff, bytes, buff->posWrite);
+    *len = buff->posWrite - buff->posRead;
+    *bytes = rt_malloc(*len+1);
+    return rbusBuffer_Read(buff, *bytes, *len);
 }
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 96604ee..caed8eb 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -732,23 +732,28 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         return -1;
     }
 
-    current->type = type;
     switch(type)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length == 0) /*a string set with NULL*/
+        {
+            rbusValue_SetString(current, NULL);
+            return 0;
+        }
+        /*length should captures null term*/
+        if(length > buff->posWrite - buff->posRead ||
+           strnlen((char const*)buff->data + buff->posRead, length) + 1 != (size_t)length)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
             return -1;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -800,11 +805,14 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     case RBUS_DATETIME:
         rc = rbusBuffer_ReadDateTime(buff, &current->d.tv);
         break;
+    case RBUS_NONE:
+        break;
     default:
+        RBUSLOG_WARN("rbusValue_Decode unknown type %d", type);
         rbusValue_Release(*value);
-        assert(false);
         return -1;
     }
+    current->type = type;
     if (rc != 0)
     {
         RBUSLOG_WARN("rbusValue_Decode failed for type %d", type);
@@ -822,6 +830,11 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
     switch(value->type)
     {
     case RBUS_STRING:/*length should include null term*/
+        if(!value->d.bytes)
+        {
+            rbusBuffer_WriteStringTLV(buff, NULL, 0);
+            break;
+        }
         assert(value->d.bytes->data);
         assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
         assert(value->d.bytes->posRead == 0);
@@ -829,6 +842,11 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
         rbusBuffer_WriteStringTLV(buff, (char const*)value->d.bytes->data, value->d.bytes->posWrite);
         break;
     case RBUS_BYTES:
+        if(!value->d.bytes)
+        {
+            rbusBuffer_WriteBytesTLV(buff, NULL, 0);
+            break;
+        }
         assert(value->d.bytes->data);
         assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
         assert(value->d.bytes->posRead == 0);
@@ -876,6 +894,9 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
     case RBUS_DATETIME:
         rbusBuffer_WriteDateTimeTLV(buff, &value->d.tv);
         break;
+    case RBUS_NONE:
+        rbusBuffer_WriteTypeLengthValue(buff, RBUS_NONE, 0, NULL);
+        break;
     default:
         assert(false);
         break;
-- 
2.43.0


From cefe1da17251b26985333cd02eff94a59cf8a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 36/71] fix: setting a string or bytes value releases the
 property or object it held

---
 src/rbus/rbus_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index caed8eb..1d815d3 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -566,6 +566,7 @@ static void rbusValue_SetBufferData(rbusValue_t v, const void* data, int len, rb
     }
     else
     {
+        rbusValue_FreeInternal(v);
         rbusBuffer_Create(&v->d.bytes);
     }
     rbusBuffer_Write(v->d.bytes, data, len);
-- 
2.43.0


From 1124405b2300fb36ec03b8979dff842023b88a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 37/71] fix: what the session manager or a session client
 answers is only read as a number if it is one

The typed accessors assert the type, so a reply (or a request) with another
type or without the expected part aborted the process which received it.
---
 src/rbus/rbus.c                       | 54 +++++++++++++++++++++------
 src/rbus/rbus_value.c                 |  2 +
 src/session_manager/session_manager.c |  4 +-
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7348967..df2277e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3951,8 +3951,11 @@ static rbusError_t rbus_getByType(rbusHandle_t handle, char const* paramName, vo
                         *((unsigned int*)paramVal) = rbusValue_GetUInt32(value);
                         break;
                     case RBUS_STRING:
-                        *((char**)paramVal) = strdup(rbusValue_GetString(value,NULL));
+                    {
+                        char const* s = rbusValue_GetString(value,NULL);
+                        *((char**)paramVal) = s ? strdup(s) : NULL;
                         break;
+                    }
                     default:
                         RBUSLOG_WARN("unexpected type param %d", type);
                         break;
@@ -6277,6 +6280,12 @@ rbusError_t rbusMethod_SendAsyncResponse(
     return RBUS_ERROR_SUCCESS;
 }
 
+/*the session manager is another process, so what it answers is looked at before it is used*/
+static bool _get_session_answer(rbusProperty_t prop, int32_t* answer)
+{
+    return prop && rbusValue_GetInt32Ex(rbusProperty_GetValue(prop), answer) == RBUS_VALUE_ERROR_SUCCESS;
+}
+
 rbusError_t rbus_createSession(rbusHandle_t handle, uint32_t *pSessionId)
 {
     (void)handle;
@@ -6288,9 +6297,15 @@ rbusError_t rbus_createSession(rbusHandle_t handle, uint32_t *pSessionId)
         if ((rc = rbusMethod_Invoke(handle, RBUS_SMGR_METHOD_REQUEST_SESSION_ID, NULL, &outParams)) == RBUS_ERROR_SUCCESS)
         {
             rbusProperty_t prop = NULL;
+            int32_t sessionId = 0;
             prop = rbusObject_GetProperties(outParams);
-            int result = rbusValue_GetInt32(rbusProperty_GetValue(prop));
-            if (RBUS_ERROR_SUCCESS != result)
+            int32_t result = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            if (!_get_session_answer(prop, &result))
+            {
+                RBUSLOG_ERROR("Malformed response from session manager.\n");
+                rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
+            else if (RBUS_ERROR_SUCCESS != result)
             {
                 RBUSLOG_ERROR("Session manager reports internal error %d from %s for the object %s", rc, handle->componentName, RBUS_SMGR_DESTINATION_NAME);
                 rc = RBUS_ERROR_SESSION_ALREADY_EXIST;
@@ -6299,13 +6314,16 @@ rbusError_t rbus_createSession(rbusHandle_t handle, uint32_t *pSessionId)
             {
                 prop = rbusProperty_GetNext(prop);
                 /* Get current session id*/
-                if (prop)
+                if (_get_session_answer(prop, &sessionId))
                 {
-                   *pSessionId = rbusValue_GetInt32(rbusProperty_GetValue(prop));
+                    *pSessionId = sessionId;
                     RBUSLOG_INFO("Received new session id %u", *pSessionId);
                 }
                 else
+                {
                     RBUSLOG_ERROR("Malformed response from session manager.\n");
+                    rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                }
             }
         }
         else
@@ -6335,9 +6353,15 @@ rbusError_t rbus_getCurrentSession(rbusHandle_t handle, uint32_t *pSessionId)
         if ((rc =  rbusMethod_Invoke(handle, RBUS_SMGR_METHOD_GET_CURRENT_SESSION_ID, NULL, &outParams)) == RBUS_ERROR_SUCCESS)
         {
             rbusProperty_t prop = NULL;
+            int32_t sessionId = 0;
             prop = rbusObject_GetProperties(outParams);
-            int result = rbusValue_GetInt32(rbusProperty_GetValue(prop));
-            if (RBUS_ERROR_SUCCESS != result)
+            int32_t result = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            if (!_get_session_answer(prop, &result))
+            {
+                RBUSLOG_ERROR("Malformed response from session manager.\n");
+                rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
+            else if (RBUS_ERROR_SUCCESS != result)
             {
                 RBUSLOG_ERROR("Session manager reports internal error %d from %s for the object %s", rc, handle->componentName, RBUS_SMGR_DESTINATION_NAME);
                 rc = RBUS_ERROR_SESSION_ALREADY_EXIST;
@@ -6346,13 +6370,16 @@ rbusError_t rbus_getCurrentSession(rbusHandle_t handle, uint32_t *pSessionId)
             {
                 prop = rbusProperty_GetNext(prop);
                 /* Get current session id*/
-                if (prop)
+                if (_get_session_answer(prop, &sessionId))
                 {
-                    *pSessionId = rbusValue_GetInt32(rbusProperty_GetValue(prop));
+                    *pSessionId = sessionId;
                     RBUSLOG_INFO("Received new session id %u", *pSessionId);
                 }
                 else
+                {
                     RBUSLOG_ERROR("Malformed response from session manager.\n");
+                    rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                }
             }
         }
         else
@@ -6396,9 +6423,14 @@ rbusError_t rbus_closeSession(rbusHandle_t handle, uint32_t sessionId)
             VERIFY_NULL(outParams);
             rbusProperty_t prop = NULL;
             prop = rbusObject_GetProperties(outParams);
-            int result = rbusValue_GetInt32(rbusProperty_GetValue(prop));
+            int32_t result = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
 
-            if (RBUS_ERROR_SUCCESS == result)
+            if (!_get_session_answer(prop, &result))
+            {
+                RBUSLOG_ERROR("Malformed response from session manager.");
+                rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
+            else if (RBUS_ERROR_SUCCESS == result)
             {
                 RBUSLOG_INFO("Successfully ended session %u.", sessionId);
             }
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 1d815d3..1da9bb9 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1363,6 +1363,8 @@ T2 rbusValue_Get##T1(rbusValue_t v)\
 }\
 rbusValueError_t rbusValue_Get##T1##Ex(rbusValue_t v, T2* data)\
 {\
+    if(!v)\
+        return RBUS_VALUE_ERROR_NULL;\
     if(v->type == T3)\
     {\
         *data = v->d.T4;\
diff --git a/src/session_manager/session_manager.c b/src/session_manager/session_manager.c
index 936d3d9..71b4566 100644
--- a/src/session_manager/session_manager.c
+++ b/src/session_manager/session_manager.c
@@ -110,10 +110,10 @@ static rbusError_t sessionManager_methodHandler(rbusHandle_t handle,
     else if (strcmp(methodName, RBUS_SMGR_METHOD_END_SESSION) == 0)
     {
         rbusProperty_t prop = NULL;
-        int sessionid = 0;
+        int32_t sessionid = 0;
         int result = 0;
         prop = rbusObject_GetProperties(inParams);
-        if ((prop) && (sessionid = rbusValue_GetInt32(rbusProperty_GetValue(prop))))
+        if ((prop) && (rbusValue_GetInt32Ex(rbusProperty_GetValue(prop), &sessionid) == RBUS_VALUE_ERROR_SUCCESS) && sessionid)
         {
             if(sessionid == g_current_session_id)
             {
-- 
2.43.0


From 39c337deec054f7b681181fa325cf29fb9c911c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 38/71] fix: a duplicate response must not replace the one
 already delivered

---
 src/rtmessage/rtConnection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 7cb30c5..da5a063 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1628,7 +1628,8 @@ rtConnection_Read(rtConnection con, int32_t timeout)
       {
         pending_request *entry;
         rtListItem_GetData(listItem, (void**)&entry);
-        if(entry->sequence_number == msginfo->header.sequence_number)
+        /*a second response to the same request is dropped*/
+        if(entry->sequence_number == msginfo->header.sequence_number && entry->response == NULL)
         {
           entry->response = msginfo;
           msginfo = NULL; /*rtConnection_SendRequest thread will release it*/
-- 
2.43.0


From b3bc53cc22539c6c5bac46d21629407bee59de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 39/71] fix: reverting a failed set skips elements that are
 gone meanwhile

---
 src/rbus/rbus.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index df2277e..17128ef 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1603,9 +1603,13 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 {
                                     char const* prevParamName = rbusProperty_GetName(prevProp);
                                     el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
+                                    err = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
+                                    if(el && el->cbTable.setHandler)
+                                    {
+                                        ELM_PRIVATE_LOCK(el);
+                                        err = el->cbTable.setHandler(handle, prevProp, &opts);
+                                        ELM_PRIVATE_UNLOCK(el);
+                                    }
                                     prevProp = rbusProperty_GetNext(prevProp);
                                     if(err != RBUS_ERROR_SUCCESS)
                                     {
-- 
2.43.0


From 14be067f23d734f2b68c97dfbd50d041e5e041fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 40/71] fix: a stored filter without a right side is read back
 as it was written

---
 src/rbus/rbus_filter.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..abdd964 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -230,7 +230,10 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        if(filter->e.logic.op == RBUS_FILTER_OPERATOR_NOT)/*not usually has no right side*/
+            rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.right ? 1 : 0);
+        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT || filter->e.logic.right)
+            rbusFilter_Encode(filter->e.logic.right, buff);
     }
 }
 
@@ -243,7 +246,8 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
     rbusValue_t val;
-    rbusFilter_t left, right;
+    rbusFilter_t left, right = NULL;
+    uint32_t hasRight = 1;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -291,12 +295,31 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        if(logOp == RBUS_FILTER_OPERATOR_NOT)
+        {
+            if(rbusBuffer_ReadUInt16(buff, &type) < 0 || rbusBuffer_ReadUInt16(buff, &length) < 0 ||
+               !(type == RBUS_UINT32 && length == 4) || rbusBuffer_ReadUInt32(buff, &hasRight) < 0)
+            {
+                RBUSLOG_WARN("rbusFilter_Decode failed");
+                rbusFilter_Release(left);
+                return -1;
+            }
+        }
+        if(hasRight && rbusFilter_Decode(&right, buff) < 0)
+        {
+            rbusFilter_Release(left);
             return -1;
+        }
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
-        rbusFilter_Release(right);
+        if(right)
+            rbusFilter_Release(right);
+    }
+    else
+    {
+        RBUSLOG_WARN("rbusFilter_Decode failed");
+        return -1;
     }
     *filterOut = filter;
     return 0;
-- 
2.43.0


From 728cb31ca7fd0c608c152b7273215c63117cafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 41/71] fix: a file of persisted subscriptions that does not
 parse is discarded without reading past it

---
 src/rbus/rbus_subscriptions.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index cda49d6..f8db4e6 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -442,7 +442,8 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
     struct stat st;
     long size;
     uint16_t type, length;
-    int32_t hasFilter;
+    int32_t hasFilter, flag;
+    size_t numLoaded = 0;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
     rbusSubscription_t* sub = NULL;
@@ -503,6 +504,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
         if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(length == 0 || length > buff->posWrite - buff->posRead || buff->data[buff->posRead + length - 1] != 0) goto remove_bad_file;
 
         sub->listener = rt_calloc(1, length);
         if(!sub->listener)
@@ -517,6 +519,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
         if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(length == 0 || length > buff->posWrite - buff->posRead || buff->data[buff->posRead + length - 1] != 0) goto remove_bad_file;
 
         sub->eventName = rt_try_calloc(1, length);
         if(!sub->eventName)
@@ -530,43 +533,45 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         //read componentId
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
 
         //read interval
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
 
         //read duration        
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
 
         //read autoPublish
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
+        if(rbusBuffer_ReadInt32(buff, &flag) < 0) goto remove_bad_file;
+        sub->autoPublish = flag != 0;
 
         //read subscriptionId
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
 
         //read rawData
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
+        if(rbusBuffer_ReadInt32(buff, &flag) < 0) goto remove_bad_file;
+        sub->rawData = flag != 0;
 
         //read hasFilter
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
 
         //read filter
@@ -588,6 +593,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         {
             RBUSLOG_INFO("process no longer running for listener %s", sub->listener);
             subscriptionFree(sub);
+            sub = NULL;
             needSave = true;
             continue;
         }
@@ -600,6 +606,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             {
                 RBUSLOG_ERROR("file doesn't exist %s", filename);
                 subscriptionFree(sub);
+                sub = NULL;
                 needSave = true;
                 continue;
             }
@@ -609,6 +616,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         rtList_PushBack(subscriptions->subList, sub, NULL);
 
         RBUSLOG_INFO("loaded %s %s", sub->listener, sub->eventName);
+        sub = NULL;
     }
 
     rbusBuffer_Destroy(buff);
@@ -633,6 +641,11 @@ remove_bad_file:
 
     if(remove(filePath) != 0)
         RBUSLOG_ERROR("failed to remove %s", filePath);
+
+    /*those loaded before the bad one are kept*/
+    rtList_GetSize(subscriptions->subList, &numLoaded);
+    if(numLoaded)
+        rbusSubscriptions_saveCache(subscriptions);
 }
 
 static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
-- 
2.43.0


From c6258a20df9db6d0d4750c0f511d2af9949767d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 42/71] fix: a subscription that cannot be restored is removed
 from the file too

---
 src/rbus/rbus_subscriptions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index f8db4e6..63e82f5 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -790,7 +790,8 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
             /*TODO figure out what to do if we get an error resubscribing
             It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
             */
-            (void)err;
+            if(err != RBUS_ERROR_SUCCESS)
+                rbusSubscriptions_saveCache(subscriptions);
             subscriptionFree(sub);
             item = next;
         }
@@ -834,7 +835,8 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
                     rtList_RemoveItem(subscriptions->subList, item, NULL);
                     err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-                    (void)err;
+                    if(err != RBUS_ERROR_SUCCESS)
+                        rbusSubscriptions_saveCache(subscriptions);
                     subscriptionFree(sub);
                 }
             }
-- 
2.43.0


From 5eca5f1992b613167ce8908022dda13574f4eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 43/71] fix: a persisted subscription keeps its id when it is
 restored

---
 src/rbus/rbus.c               |  2 +-
 src/rbus/rbus_subscriptions.c | 17 ++++++++++-------
 src/rbus/rbus_subscriptions.h |  4 ++--
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 17128ef..3bc3852 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1164,7 +1164,7 @@ int subscribeHandlerImpl(
     {
         if(!subscription)
         {
-            subscription = rbusSubscriptions_addSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, autoPublish, el, rawData);
+            subscription = rbusSubscriptions_addSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, autoPublish, el, rawData, *subscriptionId);
             if(!subscription)
             {
                 HANDLE_SUBS_MUTEX_UNLOCK(handle);
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 63e82f5..7f35500 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -44,6 +44,10 @@ struct _rbusSubscriptions
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions);
 static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions);
 
+static uint32_t nextSubscriptionId = 3; /* Starting the subscription ID with 3 as the initial 2 values are allocated for the below add listener
+                                            rtconnection create internal
+                                            client advisory */
+
 int subscribeHandlerImpl(rbusHandle_t handle, bool added, elementNode* el, char const* eventName, char const* listener, int32_t componentId, int32_t interval, int32_t duration, rbusFilter_t filter, int rawData, uint32_t *subscriptionId);
 
 static int subscriptionKeyCompare(rbusSubscription_t* subscription, char const* listener, int32_t componentId,  char const* eventName, rbusFilter_t filter, int32_t interval, int32_t duration, bool rawData)
@@ -123,15 +127,11 @@ void rbusSubscriptions_destroy(rbusSubscriptions_t subscriptions)
 static void rbusSubscriptions_onSubscriptionCreated(rbusSubscription_t* sub, elementNode* node);
 
 /*add a new subscription*/
-rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData)
+rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData, uint32_t subscriptionId)
 {
     rbusSubscription_t* sub;
     TokenChain* tokens;
 
-    static uint32_t subscriptionId = 3; /* Starting the subscription ID with 3 as the initial 2 values are allocated for the below add listener
-                                            rtconnection create internal
-                                            client advisory */
-
     RBUSLOG_DEBUG("adding %s %s", listener, eventName);
 
     tokens = TokenChain_create(eventName, registryElem);
@@ -160,14 +160,15 @@ rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscr
     sub->element = registryElem;
     sub->tokens = tokens;
     sub->rawData = rawData;
-    sub->subscriptionId = subscriptionId;
+    sub->subscriptionId = subscriptionId ? subscriptionId : nextSubscriptionId;
     rtList_Create(&sub->instances);
     rtList_PushBack(subscriptions->subList, sub, NULL);
 
     rbusSubscriptions_onSubscriptionCreated(sub, subscriptions->root);
 
     rbusSubscriptions_saveCache(subscriptions);
-    subscriptionId++;
+    if(sub->subscriptionId >= nextSubscriptionId)
+        nextSubscriptionId = sub->subscriptionId + 1;
 
     return sub;
 }
@@ -614,6 +615,8 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 
         rtList_Create(&sub->instances);
         rtList_PushBack(subscriptions->subList, sub, NULL);
+        if(sub->subscriptionId >= nextSubscriptionId)
+            nextSubscriptionId = sub->subscriptionId + 1;
 
         RBUSLOG_INFO("loaded %s %s", sub->listener, sub->eventName);
         sub = NULL;
diff --git a/src/rbus/rbus_subscriptions.h b/src/rbus/rbus_subscriptions.h
index 55b0bca..067dd39 100644
--- a/src/rbus/rbus_subscriptions.h
+++ b/src/rbus/rbus_subscriptions.h
@@ -56,8 +56,8 @@ void rbusSubscriptions_create(rbusSubscriptions_t* subscriptions, rbusHandle_t h
 /*destroy a subscriptions registry*/
 void rbusSubscriptions_destroy(rbusSubscriptions_t subscriptions);
 
-/*add a new subscription with unique key [listener, eventName, filter] and the corresponding*/
-rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData);
+/*add a new subscription with unique key [listener, eventName, filter] and the id it had when it was saved, or 0 to give it a new one*/
+rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData, uint32_t subscriptionId);
 
 /*get an existing subscription by searching for its unique key [listener, eventName, filter]*/
 rbusSubscription_t* rbusSubscriptions_getSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool rawData);
-- 
2.43.0


From aaeee385e12aa3920e1091244fedc47fc6bac5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 44/71] fix: removing a row removes only the subscriptions to
 it

---
 src/rbus/rbus_subscriptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 7f35500..376047e 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -325,7 +325,6 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
             {
                 rtListItem item, tempitem;
                 rbusSubscription_t* sub;
-                bool val=false;
                 rbusSubscription_t* subscription = NULL;
 
                 rtList_GetFront(subscriptions->subList, &item);
@@ -335,6 +334,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                 {
                     rtListItem item2;
                     elementNode* inst;
+                    bool val=false;
 
                     rtListItem_GetNext(item, &tempitem);
                     rtListItem_GetData(item, (void**)&sub);
-- 
2.43.0


From 6ac1ba225ad3e20cb0f3875103ab632158aabb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 45/71] fix: the broker removes an alias only for the client
 that registered it

---
 src/rtmessage/rtRoutingTree.c | 111 +++++++++++++++++++---------------
 src/rtmessage/rtRoutingTree.h |   2 +-
 src/rtmessage/rtrouted.c      |  10 ++-
 3 files changed, 71 insertions(+), 52 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 5bbd6c1..59b620a 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -165,37 +165,7 @@ static void tokenizeExpression(const char* expression)
     workTokenCount = i;
 }
 
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
-{
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
-    rtTreeRoute* route;
-    size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
-    while(routeItem)
-    {
-        rtListItem_GetData(routeItem, (void**)&route);
-
-        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
-        /*if the route's topicList has become empty, then remove the whole route*/
-        rtList_GetSize(route->topicList, &size);
-        if(size == 0)
-            rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
-
-        rtListItem_GetNext(routeItem, &routeItem);
-    }
-
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
-    {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
-    }
-}
-
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+static rtTreeTopic* getChildByName(rtTreeTopic* parent, const char* name, int create, int* created, int *error)
 {
     rtListItem item;
 
@@ -209,13 +179,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -232,8 +195,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         */
         else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
@@ -309,7 +270,7 @@ static void optimizeTopicsBackpropagate(rtTreeTopic* topic, rtTreeRoute* route)
 
 /* 
     This does a depth first search for treeTopics having the route.
-    If a treeTopic has the route, the route is removed from the treeTopic.
+    If a treeTopic has the route, the route is removed from the treeTopic and the treeTopic from the route.
     If a treeTopic's route list is empty and the treeTopic's child list is empty we remove the treeTopic.
     We use a depth first search so we can remove treeTopic whose child and route lists
     become empty, in the correct order (deep up).
@@ -337,7 +298,8 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
 
         if(child->routeList)
         {
-          rtList_RemoveItemByCompare(child->routeList, route, rtList_ComparePointer, NULL);
+          if(rtList_RemoveItemByCompare(child->routeList, route, rtList_ComparePointer, NULL) == RT_OK)
+            rtList_RemoveItemByCompare(route->topicList, child, rtList_ComparePointer, NULL);
           rtList_GetSize(child->routeList, &numRoutes);
         }
         if(child->routeList2)
@@ -365,6 +327,23 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
     }
 }
 
+static int hasChildWithRoute(rtTreeTopic* topic, rtTreeRoute* route)
+{
+    rtListItem childItem;
+
+    rtList_GetFront(topic->childList, &childItem);
+    while(childItem)
+    {
+        rtTreeTopic* child;
+        rtListItem_GetData(childItem, (void**)&child);
+        if(rtList_HasItem(child->routeList, route, rtList_ComparePointer) ||
+           rtList_HasItem(child->routeList2, route, rtList_ComparePointer))
+            return 1;
+        rtListItem_GetNext(childItem, &childItem);
+    }
+    return 0;
+}
+
 static void getTreeTopicStats(rtTreeTopic* topic, rtRoutingTreeStats* stats)
 {
     rtListItem childItem;
@@ -511,7 +490,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int error = 0;
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
+        topic = getChildByName(topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error);
         if (error)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
@@ -552,7 +531,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
@@ -616,7 +595,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
+        rtTreeTopic* curlyChild = getChildByName(treeTopic, "{i}", 0, NULL, NULL);
         if(curlyChild)
         {
           *routes = curlyChild->routeList;
@@ -660,24 +639,58 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+/*
+    Remove the route from the topic and from all topics below it.
+    The other routes of these topics are left alone.
+ */
+void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic, const void* routeData)
 {
     int i;
     rtTreeTopic* treeTopic = rt->topicRoot;
+    rtTreeRoute* route = getTreeRoute(rt, routeData, NULL);
 
     rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
 
     tokenizeExpression(topic);
-    if(workTokenCount == 0)
+    if(workTokenCount == 0 || !route)
         return;
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
     }
+
+    /*only an exact match is removed*/
+    if(strcmp(treeTopic->name, workTokens[workTokenCount-1].name) != 0)
+        return;
+
+    removeRouteFromTopicTree(rt, treeTopic, route);
+
+    if(treeTopic->routeList2)
+        rtList_RemoveItemByCompare(treeTopic->routeList2, route, rtList_ComparePointer, NULL);
+    if(treeTopic->routeList && rtList_RemoveItemByCompare(treeTopic->routeList, route, rtList_ComparePointer, NULL) == RT_OK)
+        rtList_RemoveItemByCompare(route->topicList, treeTopic, rtList_ComparePointer, NULL);
+
+    /*remove the topics which have nothing left, and the route from the parents which no longer lead to it*/
+    while(treeTopic->parent)
+    {
+        rtTreeTopic* parent = treeTopic->parent;
+        size_t numChildren = 0;
+        size_t numRoutes = 0;
+
+        if(treeTopic->childList)
+            rtList_GetSize(treeTopic->childList, &numChildren);
+        if(treeTopic->routeList)
+            rtList_GetSize(treeTopic->routeList, &numRoutes);
+        if(numChildren == 0 && numRoutes == 0)
+            rtList_RemoveItemByCompare(parent->childList, treeTopic, rtList_ComparePointer, freeTreeTopic);
+        if(parent->routeList2 && !hasChildWithRoute(parent, route))
+            rtList_RemoveItemByCompare(parent->routeList2, route, rtList_ComparePointer, NULL);
+        treeTopic = parent;
+    }
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -691,7 +704,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL);
         
         if(!treeTopic)
             return;
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..81f2b0b 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -157,7 +157,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topic, const v
 void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* routes);
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 3116c1f..cfffe52 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -803,9 +803,15 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         }
         if(0 == route_removed)
         {
-          //Not a route. Is it an alias?
+          //Not a route. Is it an alias of one of the sender's routes?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+
+            if((route->subscription) && (route->subscription->client == sender))
+              rtRoutingTree_RemoveTopic(gRoutingTree, expression, (void *)route);
+          }
         }
       }
     }
-- 
2.43.0


From 4dce1aa13aee41bd2bfe8a40452060cd6a910aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 46/71] fix: a topic that was not registered is not routed to
 its table or to another topic beside it

---
 src/rtmessage/rtRoutingTree.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 59b620a..b0e6f0b 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -198,12 +198,9 @@ static rtTreeTopic* getChildByName(rtTreeTopic* parent, const char* name, int cr
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
-        else if (treeTopic->name[0] == '{' || name[0] == '{')
+        else if (error && (treeTopic->name[0] == '{' || name[0] == '{'))
         {
-            if (error)
-            {
-                *error = 1;
-            }
+            *error = 1;
             return treeTopic;
         }
         rtListItem_GetNext(item, &item);
-- 
2.43.0


From a7ce450b188805531bf1e323f18ffc706790a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 47/71] fix: a name whose owner left can be registered again
 while names below it are registered

---
 src/rtmessage/rtRoutingTree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index b0e6f0b..b17f74d 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -495,7 +495,10 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
         }
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    size_t numRoutes = 0;
+    if (topic->routeList)
+        rtList_GetSize(topic->routeList, &numRoutes);
+    if (err_on_dup && (0 == isCreated) && (numRoutes > 0) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
-- 
2.43.0


From 047a0998db61e13a0f502a1de4f520d17f27ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 48/71] fix: a request naming one of the broker's own topics to
 reply to crashed the broker

---
 src/rtmessage/rtrouted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index cfffe52..ca96666 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -500,7 +500,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription)
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
-- 
2.43.0


From 57548be4ec82a2dde040b064fca8cfe8d63a679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 49/71] fix: the broker cleared the sender's routes, while
 walking them, when a receiver was gone

---
 src/rtmessage/rtrouted.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index ca96666..02c6252 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1417,6 +1417,7 @@ rtRouter_DispatchMessageFromClient(rtConnectedClient* clnt)
   int match_found = 0;
   int loop_safeguard = 0;
   rtRouteEntry * route;
+  rtConnectedClient* gone = NULL;
   rtList list;
   rtListItem item;
 #ifdef MSG_ROUNDTRIP_TIME
@@ -1454,12 +1455,15 @@ dispatch:
               clnt->header.header_length, clnt->header.payload_length, route->subscription);
           if (err != RT_OK)
           {
-            if (err == rtErrorFromErrno(EBADF))
-              rtRouted_ClearClientRoutes(clnt);
+            if (err == rtErrorFromErrno(EBADF) && route->subscription)
+              gone = route->subscription->client;
           }
         }
       }
     }
+    /* not before the list was walked: this removes entries of it */
+    if(gone)
+      rtRouted_ClearClientRoutes(gone);
   }
   if (!match_found && (0 == loop_safeguard))
   {
-- 
2.43.0


From 1fbcdec6e06d61e5262569bf279c254879069a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 50/71] fix: the broker reports a route it could not add

---
 src/rtmessage/rtrouted.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 02c6252..c91a2a2 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -364,17 +364,34 @@ rtRouted_ParseConfig(char const* fname)
   return RT_OK;
 }
 
+static rtError
+rtRouted_ClearRoute(rtRouteEntry * route)
+{
+  rtVector_RemoveItem(gRoutes, route, NULL);
+  free(route->subscription);
+  rtLog_Debug("Clearing route %s", route->expression);
+  rtRoutingTree_RemoveRoute(gRoutingTree, (void*)route);
+  free(route);
+  return RT_OK;
+}
+
 static rtError
 rtRouted_AddRoute(rtRouteMessageHandler handler, char const* exp, rtSubscription* subscription)
 {
+  rtError rc = RT_OK;
   rtRouteEntry* route = (rtRouteEntry *) rt_calloc(1, sizeof(rtRouteEntry));
   route->subscription = subscription;
   route->message_handler = handler;
   rtString_Copy(route->expression, exp, RTMSG_MAX_EXPRESSION_LEN);
   rtVector_PushBack(gRoutes, route);
   rtLog_Debug("AddRoute route=[%p] address=[%s] expression=[%s]", route, subscription->client->ident, exp);
-  rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
-  return RT_OK;
+  rc = rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
+  if(rc != RT_OK)
+  {
+    rtLog_Warn("Rejecting registration of [%s] by [%s]", exp, subscription->client->ident);
+    rtRouted_ClearRoute(route);
+  }
+  return rc;
 }
 
 static bool
@@ -420,17 +437,6 @@ rtRouted_AddAlias(char const* exp, rtRouteEntry * route)
   return rc;
 }
 
-  static rtError
-rtRouted_ClearRoute(rtRouteEntry * route)
-{
-  rtVector_RemoveItem(gRoutes, route, NULL);
-  free(route->subscription);
-  rtLog_Debug("Clearing route %s", route->expression);
-  rtRoutingTree_RemoveRoute(gRoutingTree, (void*)route);
-  free(route);
-  return RT_OK;
-}
-
 static rtError
 rtRouted_ClearClientRoutes(rtConnectedClient* clnt)
 {
@@ -779,7 +785,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
           subscription->client = sender;
           rc = rtRouted_AddRoute(rtRouted_ForwardMessage, expression, subscription);
 
-          if(strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
+          if(rc == RT_OK && strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
           {
             rtString_Copy(sender->inbox, expression, RTMSG_HEADER_MAX_TOPIC_LENGTH);
             rtLog_Debug("init client inbox to %s", sender->inbox);
-- 
2.43.0


From 35248d9ab39c99bf586039f4d4b6d6e3f45e3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 51/71] fix: converting a registered name to an instance name
 ends when the query names a part by its alias

---
 src/rbus/rbus.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 3bc3852..5f47bf9 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1723,6 +1723,16 @@ static char const* _convert_reg_name_to_instance_name(char const* registrationNa
             while(*preg && *preg != '.')
                 preg++;
         }
+        else if(*preg != 0 && *pinst != 0)
+        {
+            /*the query names this part otherwise (by its alias, for example): keep the registered one*/
+            while(*preg && *preg != '.' && idx < bufferLen - 1)
+                buffer[idx++] = *preg++;
+
+            do
+                pinst++;
+            while(*pinst && *pinst != '.');
+        }
 
         if(*pinst == 0) /*end of partial path but continue to write out the full name of child*/
         {
-- 
2.43.0


From 9027863dc99f17d1935ef7b9d3908222f643e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 52/71] fix: publishing goes on with the next subscriber after
 one without data, instead of skipping it

---
 src/rbus/rbus.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 5f47bf9..03741f6 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5948,6 +5948,7 @@ rbusError_t  rbusEvent_PublishRawData(
             if(rc == RBUS_ERROR_SUCCESS)
                 rc = RBUS_ERROR_BUS_ERROR;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
         if(subscription->rawData)
             err = rbuscore_publishDirectSubscriberEvent(subscription->eventName, subscription->listener, eventData->rawData, eventData->rawDataLen, subscription->subscriptionId, subscription->rawData);
@@ -6023,6 +6024,7 @@ rbusError_t  rbusEvent_Publish(
             if(errOut == RBUSCORE_SUCCESS)
                 errOut = RBUSCORE_ERROR_GENERAL;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
 
         if(eventData->type == RBUS_EVENT_VALUE_CHANGED)
-- 
2.43.0


From ce7b6491386c49b10a9a03eb7cc8f5781a45a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 53/71] fix: rbus_open no longer frees the handle again that
 closing a component of the same name has freed

---
 src/rbus/rbus.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 03741f6..f1905c9 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3005,6 +3005,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
         UnlockMutex();
         RBUSLOG_WARN("(%s): closing previously opened component with the same name", componentName);
         rbus_close(tmpHandle);
+        tmpHandle = NULL; /*closing has freed it*/
         LockMutex();
     }
 
-- 
2.43.0


From 8f6f96b10d29f71d42b7a58c6d3deca6d0d22c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:45 +0000
Subject: [PATCH 54/71] fix: a subscription that could not be restored is not
 freed a second time when the component closes

---
 src/rbus/rbus_subscriptions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 376047e..99ef60d 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -788,6 +788,7 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
             rbusError_t err;
             RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
             rtListItem_GetNext(item, &next);
+            rtListItem_SetData(item, NULL);/*the list keeps the item for reuse and would free the subscription again*/
             rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
             err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
             /*TODO figure out what to do if we get an error resubscribing
@@ -836,6 +837,7 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
                 if(el)
                 {
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
+                    rtListItem_SetData(item, NULL);/*the list keeps the item for reuse and would free the subscription again*/
                     rtList_RemoveItem(subscriptions->subList, item, NULL);
                     err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
                     if(err != RBUS_ERROR_SUCCESS)
-- 
2.43.0


From 226ab0955f68d5a0b87a984c689be70fdc7f281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:40 +0000
Subject: [PATCH 55/71] fix: a row without an alias does not match a
 subscription that names a row by its alias

---
 src/rbus/rbus_tokenchain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index f86639d..fd0974a 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -306,6 +306,7 @@ bool TokenChain_match(TokenChain* chain, elementNode* instNode)
             }
             else if(token->type == TokenAlias)
             {
+                rc = 1;/*a row without an alias is not the one that is named by it*/
                 if(inst->alias)
                 {
                     rc = strcmp(inst->alias, token->text);
-- 
2.43.0


From 72759b0c9152221d2202f226da9a4f7a1372849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:40 +0000
Subject: [PATCH 56/71] fix: an event for a component that is not there is not
 given to another of the same process

---
 src/rbus/rbus_handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..fc7e467 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -138,9 +138,10 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
         len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
-            handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(handle->componentId == componentId)
+            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            if(tmp->componentId == componentId)
             {
+                handle = tmp;
                 break;
             }
         }
-- 
2.43.0


From ecd1b4364436938dbe63b0b7dc9f069e82f1ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 57/71] fix: the broker answers a discovery request it cannot
 read with an error instead of not at all

---
 src/rtmessage/rtrouted.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index c91a2a2..9f0deac 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -951,13 +951,13 @@ rtRouted_OnMessageDiscoverWildcardDestinations(rtConnectedClient* sender, rtMess
   {
     rtLog_Warn("Bad DiscoverWildcard message");
     rtLog_Warn("Sender %s", sender->ident);
-    return;
+    m = NULL; /* answered with an error below */
   }
 
   if((hdr->flags & rtMessageFlags_Request) && (RT_OK == rtMessage_Create(&response)))
   {
     /*Construct the outbound message.*/
-    if(RT_OK == rtMessage_GetString(m, RTM_DISCOVERY_EXPRESSION, &expression) && (NULL != expression) &&
+    if(m && RT_OK == rtMessage_GetString(m, RTM_DISCOVERY_EXPRESSION, &expression) && (NULL != expression) &&
         (0 == validate_string(expression, RTMSG_MAX_EXPRESSION_LEN)))
     {
       size_t count = 0;
@@ -992,7 +992,8 @@ rtRouted_OnMessageDiscoverWildcardDestinations(rtConnectedClient* sender, rtMess
   else
     rtLog_Error("Cannot create response message to discovery.");
 
-  rtMessage_Release(m);
+  if(m)
+    rtMessage_Release(m);
 
   (void)sender;
 }
@@ -1008,12 +1009,12 @@ rtRouted_OnMessageDiscoverObjectElements(rtConnectedClient* sender, rtMessageHea
   {
     rtLog_Warn("Bad DiscoverObjectElements message");
     rtLog_Warn("Sender %s", sender->ident);
-    return;
+    m = NULL; /* answered with an error below */
   }
 
   if((hdr->flags & rtMessageFlags_Request) && (RT_OK == rtMessage_Create(&response)))
   {
-    if(RT_OK == rtMessage_GetString(m, RTM_DISCOVERY_EXPRESSION, &expression) && (NULL != expression))
+    if(m && RT_OK == rtMessage_GetString(m, RTM_DISCOVERY_EXPRESSION, &expression) && (NULL != expression))
     {
       unsigned int i;
       rtList list;
@@ -1056,16 +1057,22 @@ rtRouted_OnMessageDiscoverObjectElements(rtConnectedClient* sender, rtMessageHea
           rtListItem_GetNext(item, &item);
         }
       }
-      rtMessageHeader new_header;
-      prep_reply_header_from_request(&new_header, hdr);
-      if (RT_OK != rtRouted_SendMessage(&new_header, response, NULL))
-        rtLog_Info("%s() Response couldn't be sent.", __func__);
     }
+    else
+    {
+      rtMessage_SetInt32(response, RTM_DISCOVERY_COUNT, 0);
+      rtLog_Error("Bad discovery message.");
+    }
+    rtMessageHeader new_header;
+    prep_reply_header_from_request(&new_header, hdr);
+    if (RT_OK != rtRouted_SendMessage(&new_header, response, NULL))
+      rtLog_Info("%s() Response couldn't be sent.", __func__);
     rtMessage_Release(response);
   }
   else
     rtLog_Error("Cannot create response message to registered components.");
-  rtMessage_Release(m);
+  if(m)
+    rtMessage_Release(m);
 
   (void)sender;
   (void)hdr;
@@ -1083,13 +1090,13 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
   {
     rtLog_Warn("Bad DiscoverElementObjects message");
     rtLog_Warn("Sender %s", sender->ident);
-    return;
+    msgIn = NULL; /* answered with an error below */
   }
 
   if ((hdr->flags & rtMessageFlags_Request) && (RT_OK == rtMessage_Create(&response)))
   {
     int length = 0;
-    if (RT_OK == rtMessage_GetInt32(msgIn, RTM_DISCOVERY_COUNT, &length) && (0 < length))
+    if (msgIn && RT_OK == rtMessage_GetInt32(msgIn, RTM_DISCOVERY_COUNT, &length) && (0 < length))
     {
       rtMessage_SetInt32(response, RTM_DISCOVERY_RESULT, RT_OK);
       for (i = 0; i < length; i++)
@@ -1158,7 +1165,8 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
   }
   else
     rtLog_Error("Cannot create response message to trace request");
-  rtMessage_Release(msgIn);
+  if(msgIn)
+    rtMessage_Release(msgIn);
 
   (void)sender;
 }
-- 
2.43.0


From 67439d72afaa0b9dff931bc92a5bc2626ff25b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 58/71] fix: a request to the broker under a name it has no
 handler for is answered with an error

---
 src/rtmessage/rtrouted.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 9f0deac..cb3ae81 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1399,6 +1399,17 @@ rtRouted_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t cons
   else
   {
     rtLog_Info("no handler for message:%s", hdr->topic);
+    if(hdr->flags & rtMessageFlags_Request)
+    {
+      rtMessage response = NULL;
+      rtMessageHeader new_header;
+      rtMessage_Create(&response);
+      rtMessage_SetInt32(response, "result", RT_ERROR);
+      prep_reply_header_from_request(&new_header, hdr);
+      if(RT_OK != rtRouted_SendMessage(&new_header, response, NULL))
+        rtLog_Info("%s() Response couldn't be sent.", __func__);
+      rtMessage_Release(response);
+    }
   }
   return RT_OK;
 }
-- 
2.43.0


From 921d6dd8ff7e8f5dabafdd389bf03aae4350994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 59/71] fix: a message over a direct connection is answered
 exactly if it is a request

---
 src/rtmessage/rtrouteBase.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 5f8bd67..cc4645b 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -240,22 +240,23 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
     rtLog_Debug("default handler for message:%s", hdr->topic);
 
     rtDriectClientHandler dr_ctx = (rtDriectClientHandler) pthread_getspecific(_rtDirectRoute_key);
+    uint8_t* rspData = NULL;
+    uint32_t rspDataLength = 0;
     if (dr_ctx)
-    {
-        uint8_t* rspData = NULL;
-        uint32_t rspDataLength = 0;
         dr_ctx(1, hdr, buff, n, &rspData, &rspDataLength);
+    else
+        rtLog_Error("no callback handler found :%s", hdr->topic);
 
+    if (hdr->flags & rtMessageFlags_Request)
+    {
         rtMessageHeader new_header;
         _rtdirect_prepare_reply_from_request(&new_header, hdr);
         if(RT_OK != _rtdirect_send_reply_to_client(sender, &new_header, rspData, rspDataLength))
           rtLog_Info("%s() Response couldn't be sent.", __func__);
-
-        if (rspData)
-            free(rspData);
     }
-    else
-        rtLog_Error("no callback handler found :%s", hdr->topic);
+
+    if (rspData)
+        free(rspData);
   }
   return RT_OK;
 }
-- 
2.43.0


From 14cec36a8eefd64bf673aba625267c66d52086e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 60/71] fix: a request over a direct connection that its
 handler does not answer gets an error, not what was on the stack

---
 src/core/rbuscore.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 025911b..f38e32a 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2767,7 +2767,7 @@ static rtError _onDirectMessage(uint8_t isClientRequest, rtMessageHeader* hdr, u
         /* Fetch the context that was sent with the message */
          _rbusMessage_GetMetaInfo(msg, &method_name, &traceParent, &traceState);
 
-        rbusMessage response;
+        rbusMessage response = NULL;
         directServerLock();
         pSubObj = rtVector_Find(gListOfServerDirectDMLs, hdr->topic, _findPrivateServerDML);
         directServerUnlock();
@@ -2777,9 +2777,13 @@ static rtError _onDirectMessage(uint8_t isClientRequest, rtMessageHeader* hdr, u
         }
         else
         {
+            RBUSCORELOG_WARN("Could not find the DML in Private Connection List..");
+        }
+        if(NULL == response)
+        {
+            /* Nobody made a response. Make one up ourselves. */
             rbusMessage_Init(&response);
             rbusMessage_SetInt32(response, RBUSCORE_ERROR_UNSUPPORTED_METHOD);
-            RBUSCORELOG_WARN("Could not find the DML in Private Connection List..");
         }
         _rbusMessage_SetMetaInfo(response, METHOD_RESPONSE, NULL, NULL);
         uint8_t* pData = NULL;
-- 
2.43.0


From 5813ddb8f29ad495a42fbd22dffb3e83b018ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:55 +0000
Subject: [PATCH 61/71] fix: a subscription request that cannot be read and a
 listing that cannot be made are answered with an error, not with an empty
 message

---
 src/rbus/rbus.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f1905c9..c84d61f 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2361,6 +2361,12 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
         }
         rbusProperty_Release(props);
     }
+    #else
+    else
+    {
+        RBUSLOG_WARN("the names under table %s with a getHandler cannot be listed", el->fullName);
+        rbusMessage_SetInt32(*response, RBUS_ERROR_INVALID_OPERATION);
+    }
     #endif
 }
 
@@ -2766,6 +2772,11 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
             rbusMessage_SetInt32(*response, subscriptionId);
         }
     }
+    else
+    {
+        RBUSLOG_ERROR("Malformed subscription request: no event name or no sender");
+        rbusMessage_SetInt32(*response, RBUSCORE_ERROR_INVALID_PARAM);
+    }
 }
 
 #define RBUS_DAEMON_CONF_LENGTH     256
-- 
2.43.0


From 53380d86269244c3f6a20cb76b6c68bea7791384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 62/71] fix: a table or method request without a name is
 answered with an error instead of looking up what was on the stack

---
 src/rbus/rbus.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c84d61f..30b0311 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2375,7 +2375,7 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
     int sessionId;
-    char const* tableName;
+    char const* tableName = NULL;
     char const* aliasName = NULL;
     int err;
     uint32_t instNum = 0;
@@ -2389,8 +2389,8 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
 
     RBUSLOG_DEBUG("table [%s] alias [%s] name [%s]", tableName, aliasName, handleInfo->componentName);
 
-    elementNode* tableRegElem = retrieveElement(handleInfo->elementRoot, tableName);
-    elementNode* tableInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, tableName, true);
+    elementNode* tableRegElem = tableName ? retrieveElement(handleInfo->elementRoot, tableName) : NULL;
+    elementNode* tableInstElem = tableName ? retrieveInstanceElementEx(handle, handleInfo->elementRoot, tableName, true) : NULL;
 
     if(tableRegElem && tableInstElem)
     {
@@ -2433,7 +2433,7 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
     int sessionId;
-    char const* rowName;
+    char const* rowName = NULL;
 
     rbusMessage_GetInt32(request, &sessionId);
     rbusMessage_GetString(request, &rowName);
@@ -2441,8 +2441,8 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     RBUSLOG_DEBUG("row [%s]", rowName);
 
     /*get the element for the row */
-    elementNode* rowRegElem = retrieveElement(handleInfo->elementRoot, rowName);
-    elementNode* rowInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true);
+    elementNode* rowRegElem = rowName ? retrieveElement(handleInfo->elementRoot, rowName) : NULL;
+    elementNode* rowInstElem = rowName ? retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true) : NULL;
 
     if(rowRegElem && rowInstElem)
     {
@@ -2497,7 +2497,7 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
     int sessionId;
     int hasInParam = 0;
-    char const* methodName;
+    char const* methodName = NULL;
     rbusObject_t inParams, outParams;
     rbusValue_t value1, value2;
     rbusValue_t outParamsVal = NULL;
@@ -2521,8 +2521,8 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
 
     rbusObject_Init(&outParams, NULL);
     /*get the element for the row */
-    elementNode* methRegElem = retrieveElement(handleInfo->elementRoot, methodName);
-    elementNode* methInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, methodName, true);
+    elementNode* methRegElem = methodName ? retrieveElement(handleInfo->elementRoot, methodName) : NULL;
+    elementNode* methInstElem = methodName ? retrieveInstanceElementEx(handle, handleInfo->elementRoot, methodName, true) : NULL;
 
     if(methRegElem && methInstElem)
     {
-- 
2.43.0


From d9c630822b7ea1a47e61307723c6e82c9e4bdae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 63/71] fix: names, types and counts missing in a message are
 empty, not what was on the stack

---
 src/rbus/rbus.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 30b0311..cf76960 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -625,7 +625,7 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg)
 {
-    char const* name;
+    char const* name = "";
     rbusValue_t value;
     rbusError_t err = RBUS_ERROR_SUCCESS;
 
@@ -905,8 +905,8 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
 void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
         uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg)
 {
-    char const* name;
-    int type;
+    char const* name = "";
+    int type = 0;
     rbusObject_t data = NULL;
     int hasFilter = false;
     int hasEventData =  false;
@@ -4760,7 +4760,7 @@ rbusError_t rbusTable_getRowNames(
 
         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
         {
-            int count, i;
+            int count = 0, i;
             rbusRowName_t* tmpNames = NULL;
 
             errorcode = RBUS_ERROR_SUCCESS;
@@ -4782,7 +4782,7 @@ rbusError_t rbusTable_getRowNames(
 
             for(i = 0; i < count; ++i)
             {
-                int32_t instNum;
+                int32_t instNum = 0;
                 char const* alias = NULL;
                 char fullName[RBUS_MAX_NAME_LENGTH];
 
-- 
2.43.0


From 168e5d3ed3f37cf174d939aded6c7ebc24286b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 64/71] fix: a filter that cannot be read from a message is no
 filter instead of one made of what was on the stack

---
 src/rbus/rbus.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index cf76960..f02da4d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -876,27 +876,33 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
     int32_t type;
     int32_t op;
 
-    rbusMessage_GetInt32(msg, &type);
+    *filter = NULL;
+
+    if(rbusMessage_GetInt32(msg, &type) != RT_OK || rbusMessage_GetInt32(msg, &op) != RT_OK)
+    {
+        RBUSLOG_WARN("no kind or no operator of filter");
+        return;
+    }
 
     if(type == RBUS_FILTER_EXPRESSION_RELATION)
     {
         char const* name;
         rbusValue_t val;
-        rbusMessage_GetInt32(msg, &op);
         rbusMessage_GetString(msg, &name);
-        rbusValue_initFromMessage(&val, msg);
-        rbusFilter_InitRelation(filter, op, val);
+        if(rbusValue_initFromMessage(&val, msg) == RBUS_ERROR_SUCCESS)
+            rbusFilter_InitRelation(filter, op, val);
         rbusValue_Release(val);
     }
     else if(type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusFilter_t left = NULL, right = NULL;
-        rbusMessage_GetInt32(msg, &op);
         rbusFilter_InitFromMessage(&left, msg);
         if(op != RBUS_FILTER_OPERATOR_NOT)
             rbusFilter_InitFromMessage(&right, msg);
-        rbusFilter_InitLogic(filter, op, left, right);
-        rbusFilter_Release(left);
+        if(left && (right || op == RBUS_FILTER_OPERATOR_NOT))
+            rbusFilter_InitLogic(filter, op, left, right);
+        if(left)
+            rbusFilter_Release(left);
         if(right)
             rbusFilter_Release(right);
     }
-- 
2.43.0


From abf8ed18a6347d3be1de5a9ce12769adaad28c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:58 +0000
Subject: [PATCH 65/71] fix: a discovery answer whose count is missing or not
 that of its items is refused instead of overrunning the array made for it

---
 src/core/rbuscore.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index f38e32a..e9bea57 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1938,7 +1938,7 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
 
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
-            int32_t size, length, i;
+            int32_t size = 0, length, i;
 
             rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &size);
             rtMessage_GetArrayLength(msg, RTM_DISCOVERY_ITEMS, &length);
@@ -1946,6 +1946,8 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
             if(size != length)
             {
                 RBUSCORELOG_ERROR("rbus_resolveWildcardDestination size missmatch");
+                size = length = 0;
+                ret = RBUSCORE_ERROR_MALFORMED_RESPONSE;
             }
 
             if(size && length)
@@ -2019,7 +2021,7 @@ rbusCoreError_t rbus_discoverObjectElements(const char * object, int * count, ch
 
     if(RT_OK == err)
     {
-        int32_t size, length, i;
+        int32_t size = 0, length, i;
         const char * value = NULL;
         char **array_ptr = NULL;
 
@@ -2031,6 +2033,8 @@ rbusCoreError_t rbus_discoverObjectElements(const char * object, int * count, ch
         if(size != length)
         {
             RBUSCORELOG_ERROR("rbus_GetElementsAddedByObject size missmatch");
+            size = length = 0;
+            ret = RBUSCORE_ERROR_MALFORMED_RESPONSE;
         }
 
         *count = size;
@@ -2285,7 +2289,7 @@ rbusCoreError_t rbus_discoverRegisteredComponents(int * count, char *** componen
 
     if(RT_OK == err)
     {
-        int32_t size, length, i;
+        int32_t size = 0, length, i;
         const char * value = NULL;
 
         rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &size);
@@ -2294,6 +2298,8 @@ rbusCoreError_t rbus_discoverRegisteredComponents(int * count, char *** componen
         if(size != length)
         {
             RBUSCORELOG_ERROR("rbus_registeredComponents size missmatch");
+            size = length = 0;
+            ret = RBUSCORE_ERROR_MALFORMED_RESPONSE;
         }
 
         char **array_ptr = (char **)rt_try_malloc(size * sizeof(char *));
-- 
2.43.0


From d4524f2349675d0d90eee63c1c8ee074afe7e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 66/71] fix: a message is read from the bytes that were
 received, not from what lies behind them

---
 src/rtmessage/rtMessage.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 3f08793..e9f0f72 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -102,8 +102,6 @@ rtMessage_Clone(rtMessage const message, rtMessage* copy)
 rtError
 rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
 {
-  (void) n;
-
   #if 0
   printf("------------------------------------------\n")
   for (i = 0; i < 256; ++i)
@@ -120,7 +118,7 @@ rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
   *message = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*message)
     return rtErrorFromErrno(ENOMEM);
-  (*message)->json = cJSON_Parse((char *) bytes);
+  (*message)->json = cJSON_ParseWithLength((char const *) bytes, n < 0 ? 0 : n);
   if (!(*message)->json)
   {
     free(*message);
-- 
2.43.0


From c0ebbdc26d5a5248bef30d1ebcff7659de54a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 67/71] fix: a field that is not a text is not read as a null
 text

---
 src/rtmessage/rtMessage.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index e9f0f72..976e228 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -297,7 +297,7 @@ rtError
 rtMessage_GetString(rtMessage const  message, const char* name, char const** value)
 {
   cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  if (p && p->valuestring)
   {
     *value = p->valuestring;
     return RT_OK;
@@ -317,7 +317,7 @@ rtError
 rtMessage_GetBinaryData(rtMessage message, char const* name, void ** ptr, uint32_t *size)
 {
   cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  if (p && p->valuestring)
   {
     const unsigned char * value;
     value = (unsigned char *)p->valuestring;
@@ -342,7 +342,7 @@ rtError
 rtMessage_GetStringValue(rtMessage const message, char const* name, char* fieldvalue, int n)
 {
   cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  if (p && p->valuestring)
   {
     char *value = p->valuestring;
     int const len = (int) strlen(value);
@@ -427,7 +427,7 @@ rtMessage_GetSendTopic(rtMessage const m, char* topic)
 {
   rtError err = RT_OK;
   cJSON* obj = cJSON_GetObjectItem(m->json, "_topic");
-  if (obj)
+  if (obj && obj->valuestring)
     strcpy(topic, obj->valuestring);
   else
     err = RT_FAIL;
@@ -562,7 +562,7 @@ rtMessage_GetStringItem(rtMessage const m, char const* name, int32_t idx, char c
     return RT_FAIL;
 
   cJSON* item = cJSON_GetArrayItem(obj, idx);
-  if (item)
+  if (item && item->valuestring)
   {
     *value = item->valuestring;
     return RT_OK;
-- 
2.43.0


From 68100f90dcd5b8fba2b8ae78671157d3f4b0becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 68/71] fix: a message that cannot be read is not used as if it
 had been

---
 src/core/rbuscore.c          |  6 +++++-
 src/rtmessage/rtConnection.c |  2 +-
 src/rtmessage/rtrouteBase.c  |  6 +++++-
 src/rtmessage/rtrouted.c     | 11 ++++++++---
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index e9bea57..8c23570 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1330,7 +1330,11 @@ static void rtrouted_advisory_callback(rtMessageHeader const* hdr, uint8_t const
     if(!g_client_disconnect_callback)
         return;
 
-    rtMessage_FromBytes(&msg, data, dataLen);
+    if(rtMessage_FromBytes(&msg, data, dataLen) != RT_OK)
+    {
+        RBUSCORELOG_ERROR("Failed to read advisory msg");
+        return;
+    }
     if(rtMessage_GetInt32(msg, RTMSG_ADVISE_EVENT, &advisory_event) == RT_OK)
     {
         if(advisory_event == rtAdviseClientDisconnect)
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index da5a063..cdf356a 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -831,7 +831,7 @@ rtConnection_SendRequest(rtConnection con, rtMessage const req, char const* topi
   rtMessage_FreeByteArray(p);
   if(err == RT_OK)
   {
-    rtMessage_FromBytes(res, resMsg->data, resMsg->dataLength);
+    err = rtMessage_FromBytes(res, resMsg->data, resMsg->dataLength);
     rtMessageInfo_Release(resMsg);
   }
   return err;
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index cc4645b..005c859 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -214,7 +214,11 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
     uint32_t route_id = 0;
     int32_t add_subscrption = 0;
 
-    rtMessage_FromBytes(&m, buff, n);
+    if(RT_OK != rtMessage_FromBytes(&m, buff, n))
+    {
+      rtLog_Warn("Bad Subscribe message");
+      return RT_OK;
+    }
     if((RT_OK == rtMessage_GetInt32(m, "add", &add_subscrption)) &&
        (RT_OK == rtMessage_GetString(m, "topic", &expression)) &&
        (RT_OK == rtMessage_GetInt32(m, "route_id", (int32_t *)&route_id)))
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index cb3ae81..60760eb 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -826,8 +826,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
       rtLog_Warn("Bad subscription message from %s", sender->ident);
       rc = RT_ERROR_INVALID_ARG;
     }
+    rtMessage_Release(m);
   }
-  rtMessage_Release(m);
 
   /* Send Response */
   if(hdr->flags & rtMessageFlags_Request)
@@ -1175,9 +1175,14 @@ static void
 rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n)
 {
   rtMessage msg;
-  const char * cmd;
+  const char * cmd = "";
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad diag message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
   rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
 
-- 
2.43.0


From 3820070da564283e95f57f2f41c8bf25866f0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:00 +0000
Subject: [PATCH 69/71] fix: a text a message does not hold is not used as if
 it had been there

---
 src/core/rbuscore.c          | 10 +++++++---
 src/rbus/rbus.c              | 20 +++++++++++++-------
 src/rtmessage/rtConnection.c |  6 ++++++
 src/rtmessage/rtrouted.c     |  6 ++++++
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 8c23570..473ac72 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1510,7 +1510,7 @@ static void master_event_callback(rtMessageHeader const* hdr, uint8_t const* dat
     err = rbusMessage_GetString(msg, &object_name);
     err = rbusMessage_GetInt32(msg, &is_rbus_flag);
     rbusMessage_EndMetaSectionRead(msg);
-    if(RT_OK != err)
+    if(RT_OK != err || !event_name)
     {
         RBUSCORELOG_ERROR("Event message doesn't contain an event name.");
         rbusMessage_Release(msg);
@@ -2635,7 +2635,8 @@ static void _rbuscore_directconnection_load_from_cache()
             rbusMessage tmpMsg = NULL;
             const char* pDMLName = NULL;
             const char* pConsumerName = NULL;
-            rbusMessage_GetMessage(msg, &tmpMsg);
+            if (RT_OK != rbusMessage_GetMessage(msg, &tmpMsg))
+                break;
             rbusMessage_GetString(tmpMsg, &pDMLName);
             rbusMessage_GetString(tmpMsg, &pConsumerName);
             RBUSCORELOG_INFO("Direct Connection Existed for DML (%s) for this client(%s)", pDMLName, pConsumerName);
@@ -3076,7 +3077,10 @@ rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName, rtC
             rbusMessage_GetString(response, &pProviderName);
             rbusMessage_GetString(response, &pDaemonAddress);
 
-            err = rbuscore_openPrivateConnectionToProvider(pPrivateConn, pParameterName, pDaemonAddress, pProviderName);
+            if (!pProviderName || !pDaemonAddress)
+                err = RBUSCORE_ERROR_MALFORMED_RESPONSE;
+            else
+                err = rbuscore_openPrivateConnectionToProvider(pPrivateConn, pParameterName, pDaemonAddress, pProviderName);
         }
         rbusMessage_Release(response);
     }
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f02da4d..21010f8 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1565,7 +1565,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             * isCommit used to set only the last parameter in the list in order
             * to turn this into a bulk set operation: FIXME maybe we need a 'bulk' option
             */
-            if (strncasecmp("TRUE", pIsCommit, 4) == 0)
+            if (pIsCommit && strncasecmp("TRUE", pIsCommit, 4) == 0)
                 isCommit = true;
 
             for (loopCnt = 0; loopCnt < numVals; loopCnt++)
@@ -2109,7 +2109,8 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                 else
                 {
                     //Do a look up and call the corresponding method
-                    result = _get_single_dml_handler(handle, parameterName, pCompName, properties[i]);
+                    result = parameterName ? _get_single_dml_handler(handle, parameterName, pCompName, properties[i])
+                                           : RBUS_ERROR_INVALID_INPUT;
                     if (result != RBUS_ERROR_SUCCESS)
                         break;
                 }
@@ -2247,7 +2248,7 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
 
     rbusMessage_Init(response);
 
-    el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, objName, true);
+    el = objName ? retrieveInstanceElementEx(handle, handleInfo->elementRoot, objName, true) : NULL;
     if (!el)
     {
         rbusMessage_SetInt32(*response, (int)RBUS_ERROR_ELEMENT_DOES_NOT_EXIST);
@@ -2805,11 +2806,16 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
 
     rbusMessage_Init(response);
 
-    el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, paramName, true);
+    el = paramName ? retrieveInstanceElementEx(handle, handleInfo->elementRoot, paramName, true) : NULL;
 
     if (el)
     {
-        if (0 == strncmp(consumerToBrokerConf, "unix", 4))
+        if (!consumerName || !consumerToBrokerConf || strlen(consumerToBrokerConf) < 6)
+        {
+            RBUSLOG_WARN("direct connection request for %s without a consumer or its address", paramName);
+            ret = RBUSCORE_ERROR_INVALID_PARAM;
+        }
+        else if (0 == strncmp(consumerToBrokerConf, "unix", 4))
         {
             snprintf (daemonAddress, RBUS_DAEMON_CONF_LENGTH, "unix:///tmp/.direct_%s_%s", __progname, consumerName);
         }
@@ -2879,7 +2885,7 @@ static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbus
 
     rbusMessage_Init(response);
 
-    el = retrieveInstanceElement(handleInfo->elementRoot, paramName);
+    el = (paramName && consumerName) ? retrieveInstanceElement(handleInfo->elementRoot, paramName) : NULL;
     if (el)
     {
         rbusMessage_SetInt32(*response, RBUSCORE_SUCCESS);
@@ -4365,7 +4371,7 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                             if(pFailedElement)
                             {
                                 rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
+                                *pFailedElement = pErrorReason ? strdup((char*)pErrorReason) : NULL;
                                 RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
                             }
                             else
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index cdf356a..039bc51 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -648,6 +648,12 @@ rtConnection_CreateWithConfig(rtConnection* con, rtMessage const conf)
   rtMessage_GetInt32(conf, "max_retries", &max_retries);
   rtMessage_GetInt32(conf, "check_remote_router",&remote_router);
 
+  if (!application_name || !router_config)
+  {
+    rtLog_Error("the configuration of a connection needs an appname and a uri");
+    return rtErrorFromErrno(EINVAL);
+  }
+
   err = rtConnection_CreateInternal(con, application_name, router_config, max_retries);
   #ifdef WITH_SPAKE2
   (*con)->check_remote_router=remote_router;
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 60760eb..f9b01c6 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -855,6 +855,12 @@ rtRouted_OnMessageHello(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t
     return;
   }
   rtMessage_GetString(m, "inbox", &inbox);
+  if(!inbox)
+  {
+    rtLog_Warn("Hello message from %s without an inbox", sender->ident);
+    rtMessage_Release(m);
+    return;
+  }
 
   rtSubscription* subscription = (rtSubscription *) rt_malloc(sizeof(rtSubscription));
   subscription->id = 0;
-- 
2.43.0


From e9c685a1d8c87a8f40b958a7bff4a7589c9daf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:16 +0000
Subject: [PATCH 70/71] fix: a text read from a message ends within it

---
 src/core/rbuscore_message.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 187cbab..03dce02 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -190,6 +190,11 @@ rtError rbusMessage_SetString(rbusMessage message, char const* value)
 rtError rbusMessage_GetString(rbusMessage const message, char const** value)
 {
     VERIFY_UNPACK(MSGPACK_OBJECT_STR);
+    if(message->upk.data.via.str.size == 0 || message->upk.data.via.str.ptr[message->upk.data.via.str.size - 1] != 0)
+    {
+        RBUSCORELOG_ERROR("%s text does not end where its length says", __FUNCTION__);
+        return RT_FAIL;
+    }
     *value = message->upk.data.via.str.ptr;
     return RT_OK;
 }
-- 
2.43.0


From de7b8f6c92223e2cd098e5dea5e8cb280c1cda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 71/71] fix: a report of a timeout that names no topic is not
 printed from a null

---
 src/rtmessage/rtrouted.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index f9b01c6..fa037fd 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -895,8 +895,8 @@ rtRouted_OnMessageTimeOut(rtConnectedClient* sender, rtMessageHeader* hdr, uint8
   rtMessage_GetInt32(m, "T5", (int32_t *)&header.T5);
   rtMessage_GetString(m, "topic", &topic);
   rtMessage_GetString(m, "reply_topic", &reply_topic);
-  snprintf(header.topic, sizeof(header.topic), "%s", topic);
-  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic);
+  snprintf(header.topic, sizeof(header.topic), "%s", topic ? topic : "");
+  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic ? reply_topic : "");
   rtLog_Info("Consumer exist but the request timed out");
   rtRouted_TransactionTimingDetails(header);
 
-- 
2.43.0

