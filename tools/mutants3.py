C = 'runtime/client.c'; S = 'runtime/server.c'; A = 'runtime/arena.c'; D = 'runtime/dispatch_generic.c'
LS = 'runtime/link/socket/server.c'; LC = 'runtime/link/socket/client.c'; SH = 'runtime/link/socket/shared.c'
H = 'runtime/hashtable.c'; Q = 'runtime/queue.c'; ST = 'runtime/stack.c'; K = 'runtime/control.c'; P = 'runtime/shared.c'
R = 'include/rwlock.h'; T = 'include/gracht/types.h'

m('instance-8-bit', 'C02 C09', S, 'client->instance = ++server->client_instances;', 'client->instance = ++server->client_instances & 0xFF;')
m('instance-per-handle', 'C02 C09', S, 'client->instance = ++server->client_instances;', 'client->instance = (uint64_t)client->handle;')
m('probe-8-bit', 'C11', H, '    uint16_t probeCount;', '    uint8_t  probeCount;')
m('hash-32-bit-compare', 'C11', H, 'if (current->hash == hash && !hashtable->cmp(&current->payload[0], key)) {\n            return', 'if ((uint32_t)current->hash == (uint32_t)hash && current->probeCount < 200 && !hashtable->cmp(&current->payload[0], key)) {\n            return')
m('context-160', 'C17 C14', S, 'configuration->max_message_size + 512', 'configuration->max_message_size + 128')
m('context-40', 'C17 C14', S, 'configuration->max_message_size + 512', 'configuration->max_message_size + sizeof(struct gracht_message)')
m('defer-without-address', 'C14 C02', T, '(sizeof(struct gracht_message) + (message)->size)', '(sizeof(struct gracht_message) + (message)->size - (message)->index)')
m('datagram-size-short', 'C14', LS, 'context->size   = (uint32_t)bytesRead + (uint32_t)link->address_length;', 'context->size   = (uint32_t)bytesRead;')
m('datagram-trunc-unchecked', 'C14', LS, ' || bytesRead > (intmax_t)len ||', ' ||')
m('datagram-address-not-cleared', 'C14', LS, '    memset(&context->payload[0], 0, (size_t)addrlen);\n', '')
m('datagram-client-family', 'C14', LS, 'memcpy(&client->address, address, (size_t)link->address_length);', 'memcpy(&client->address, address, (size_t)link->address_length > 110 ? 110 : 16);')
m('await-async-no-disconnect', 'C05 C08', C, '        if (client->disconnected) {\n            errno = EPIPE;\n            status = -1;\n            break;', '        if (client->disconnected && !(flags & GRACHT_AWAIT_ASYNC)) {\n            errno = EPIPE;\n            status = -1;\n            break;')
m('await-checks-disconnect-first', 'C05', C, '    while (!__await_completed(client, contexts, contextCount, flags)) {', '    while (client->disconnected || !__await_completed(client, contexts, contextCount, flags)) {')
m('wait-disconnect-first', 'C05', C, '        if (context) {\n            struct gracht_message_descriptor* descriptor = gr_hashtable_get(', '        if (context && !client->disconnected) {\n            struct gracht_message_descriptor* descriptor = gr_hashtable_get(')
m('enomem-disconnects', 'C05 C16 C08 C19', C, ' && reason != ENOMEM) {', ') {')
m('listening-kept-on-enomem', 'C05 C16', C, '    client->listening = false;\n', '    client->listening = reason == ENOMEM;\n')
m('eagain-disconnects-partial', 'C08', C, 'reason != EAGAIN && reason != EWOULDBLOCK && reason != ENOMEM', 'reason != EAGAIN && reason != ENOMEM && reason != EWOULDBLOCK && 1')
m('event-invoked-listening', 'C05 C04', C, '    mtx_lock(&client->messages_lock);\n    client->listening = false;', '    if (invoke) { (void)__invoke_action(client, &buffer); invoke = false; }\n    mtx_lock(&client->messages_lock);\n    client->listening = false;')
m('unused-off-by-header', 'C08 C16', C, 'client->max_message_size - (buffer.index + GB_MSG_LEN(&buffer));', 'client->max_message_size - (buffer.index + GB_MSG_LEN(&buffer)) + 4;')
m('finalize-partial', 'C16', C, '    if (buffer->data) {\n        gracht_arena_free(client->arena, buffer->data, 0);\n    }\n    return 0;', '    if (buffer->data && buffer->index) {\n        gracht_arena_free(client->arena, buffer->data, buffer->index > 4096 ? buffer->index : 0);\n    }\n    return 0;')
m('partial-overwritten', 'C07 C08', SH, 'if (received > partial->length) {', 'if (received > partial->length && (received < GRACHT_MESSAGE_HEADER_SIZE || received - partial->length > 1)) {')
m('expected-before-partial', 'C07 C08', SH, '    if (received) {\n        memcpy(buffer, partial->data, received);', '    if (received) {\n        memcpy(buffer, partial->data, received > 65536 ? 65536 : received);')
m('eintr-stops-send', 'C17', SH, '            if (errno == EINTR) {\n                continue;\n            }\n\n            // the rest', '            // the rest')
m('eintr-restart', 'C17', SH, '            if (errno == EINTR) {\n                continue;\n            }\n\n            // the rest', '            if (errno == EINTR) {\n                sent = 0;\n                continue;\n            }\n\n            // the rest')
m('nonblock-stays', 'C17 C04 C09', SH, '        flags &= ~MSG_DONTWAIT;\n', '')
m('no-shutdown-after-part', 'C19 C17 C09', SH, '                shutdown(socket, SHUT_RDWR);\n', '')
m('shutdown-read-only', 'C19 C17 C09', SH, 'shutdown(socket, SHUT_RDWR);', 'shutdown(socket, SHUT_RD);')
m('reserve-not-counted', 'C11 C19 C16', ST, '        stack->reserved++;\n', '')
m('stack-grow-late', 'C11 C19', ST, 'if (stack->reserved == stack->count) {', 'if (stack->reserved > stack->count) {')
m('queue-index-late', 'C11', Q, '        queue->queue_index  -= queue->capacity;\n', '        if (queue->queue_index > queue->capacity) queue->queue_index  -= queue->capacity; else queue->queue_index = 0;\n')
m('arena-merge-back-only-free', 'C10', A, '            while (next && !next->allocated) {', '            if (next && !next->allocated) {')
m('arena-relocate-short', 'C10', A, 'memcpy(relocated, &header->payload[0], header->length);', 'memcpy(relocated, &header->payload[0], header->length & ~7u);')
m('arena-relocate-size', 'C10', A, '(size_t)header->length + correctedSize);', '(size_t)header->length + correctedSize - 4);')
m('arena-extend-exact', 'C10', A, '(nextHeader->length + HEADER_SIZE) < correctedSize) {', '(nextHeader->length + HEADER_SIZE) <= correctedSize + 1) {')
m('arena-trim-small', 'C10', A, 'if (allocLength < sizeof(struct gracht_header)) {', 'if (allocLength < HEADER_SIZE - 2) {')
m('arena-spill-extend', 'C10', A, '            header->length += nextHeader->length + HEADER_SIZE;\n            mtx_unlock', '            header->length += nextHeader->length;\n            mtx_unlock')
m('rw-signal-on-last-two', 'C12 C03', R, 'if (!lock->readers) {', 'if (lock->readers == 1) {')
m('rw-no-chain', 'C12 C06 C13', R, '    mtx_unlock(&lock->sync_object);\n    cnd_signal(&lock->signal);', '    mtx_unlock(&lock->sync_object);')
m('worker-signal-unlocked-state', 'C13 C12', D, '        mtx_lock(&pool->workers[i].sync_object);\n        pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;\n        cnd_signal(&pool->workers[i].signal);\n        mtx_unlock(&pool->workers[i].sync_object);', '        pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;\n        cnd_signal(&pool->workers[i].signal);')
m('space-signal-missing', 'C03 C13', D, '        cnd_signal(&worker->space);\n', '')
m('space-signal-once-empty', 'C03 C13', D, '        cnd_signal(&worker->space);\n', '        if (worker->job_queue.queue_index == worker->job_queue.dequeue_index) cnd_signal(&worker->space);\n')
m('rr-skips', 'C13 C03', D, '    if (pool->rr_index == pool->worker_count) {', '    if (pool->rr_index > pool->worker_count) {')
m('workers-drop-rest', 'C13 C16', D, '    while (job) {\n        server_cleanup', '    if (job) {\n        server_cleanup')
m('startup-overrides-shutdown', 'C13', D, '    if (worker->state == WORKER_STARTUP) {\n        worker->state = WORKER_ALIVE;\n    }', '    worker->state = WORKER_ALIVE;')
m('arena-count-16', 'C03 C17', S, 'configuration->server_workers * server->allocationSize * 32;', 'configuration->server_workers * server->allocationSize;')
m('respond-id-16', 'C02', S, 'GB_MSG_ID_0(message)  = *((uint32_t*)&messageContext->payload[messageContext->index]);', 'GB_MSG_ID_0(message)  = *((uint16_t*)&messageContext->payload[messageContext->index]);')
m('respond-by-index-zero', 'C14', S, 'GB_MSG_ID_0(message)  = *((uint32_t*)&messageContext->payload[messageContext->index]);', 'GB_MSG_ID_0(message)  = *((uint32_t*)&messageContext->payload[messageContext->link ? messageContext->index : 0]);')
m('links-by-first', 'C14 C09', S, '        if (server->link_table.handles[i] == connection) {', '        if (server->link_table.handles[i] == connection || (connection < 0 && server->link_table.links[i])) {')
m('link-zero-handle', 'C18 C09', S, '        if (server->link_table.handles[i] == connection) {', '        if (server->link_table.links[i] && server->link_table.handles[i] <= connection) {')
m('subscribed-by-block', 'C04', S, 'return (client->subscriptions[block] & (1u << offset)) != 0;', 'return (client->subscriptions[block] & (1u << offset)) > 0 && id != 0x9F;')
m('subscribe-all-not-255', 'C04', S, '        memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));\n        return;', '        memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions) - 1);\n        return;')
m('disconnect-before-callback', 'C09', S, '    if (server->callbacks.clientDisconnected) {\n        server->callbacks.clientDisconnected(client);\n    }\n', '    if (server->callbacks.clientDisconnected && entry->client->flags) {\n        server->callbacks.clientDisconnected(client);\n    }\n')
m('destroy-outside-lock', 'C12 C09', S, '''    if (entry) {
        entry->link->ops.server.destroy_client(entry->client, server->set_handle);
    }
    rwlock_w_unlock(&server->clients_lock);''', '''    rwlock_w_unlock(&server->clients_lock);
    if (entry) {
        entry->link->ops.server.destroy_client(entry->client, server->set_handle);
    }''')
m('close-before-remove', 'C09', LS, '''        status = socket_aio_remove(set_handle, client->socket);
        if (status) {
            GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
        }
        status = close(client->base.handle);''', '''        status = close(client->base.handle);
        (void)socket_aio_remove(set_handle, client->socket);''')
m('broadcast-blocks', 'C04 C17', S, 'entry->link->ops.server.send_client(entry->client, context->message, context->flags);', 'entry->link->ops.server.send_client(entry->client, context->message, context->flags | GRACHT_MESSAGE_BLOCK);')
m('efault-without-event', 'C07 C09', S, 'if (reason == EFAULT || (events & GRACHT_AIO_EVENT_DISCONNECT)) {', 'if (events & GRACHT_AIO_EVENT_DISCONNECT) {')
m('disconnect-on-eagain', 'C03 C07', S, 'if (reason == EFAULT || (events & GRACHT_AIO_EVENT_DISCONNECT)) {', 'if (reason == EFAULT || reason == ENODATA || (events & GRACHT_AIO_EVENT_DISCONNECT)) {')
m('control-in-worker', 'C12 C04 C09', S, '    if (protocol == 0) {\n        server_invoke_action', '    if (0) {\n        server_invoke_action')
m('control-buffer-kept', 'C16', S, '        server_invoke_action(server, message);\n        server_cleanup_message(server, message);', '        server_invoke_action(server, message);\n        if (message->index == 0) server_cleanup_message(server, message);')
m('instance-16-bit', 'C02', S, 'client->instance = ++server->client_instances;', 'client->instance = ++server->client_instances & 0xFFFF;')
