C = 'runtime/client.c'; S = 'runtime/server.c'; A = 'runtime/arena.c'; D = 'runtime/dispatch_generic.c'
LS = 'runtime/link/socket/server.c'; LC = 'runtime/link/socket/client.c'; SH = 'runtime/link/socket/shared.c'
H = 'runtime/hashtable.c'; Q = 'runtime/queue.c'; ST = 'runtime/stack.c'; K = 'runtime/control.c'; P = 'runtime/shared.c'

m('id-wraps-early', 'C02', C, 'return client->current_message_id++;', 'return client->current_message_id++ & 0xFF;')
m('id-wraps-10bit', 'C02', C, 'return client->current_message_id++;', 'return client->current_message_id++ & 0x3FF;')
m('descriptor-dropped-inprogress', 'C02 C05', C, 'if (status != GRACHT_MESSAGE_INPROGRESS) {\n        gr_hash', 'if (status >= 0) {\n        gr_hash')
m('descriptor-kept', 'C02 C16 C18', C, 'if (status != GRACHT_MESSAGE_INPROGRESS) {\n        gr_hash', 'if (status == GRACHT_MESSAGE_ERROR) {\n        gr_hash')
m('respond-no-instance', 'C02', S, 'else if (entry->client->instance != messageContext->instance) {', 'else if (0) {')
m('response-overwrites', 'C08 C16', C, 'if (!descriptor || MESSAGE_STATUS_EXECUTED(descriptor->status)) {\n        mtx_unlock(&client->messages_lock);\n        // what the heck?\n        GRERROR(GRSTR("[gracht_client_wait', 'if (!descriptor) {\n        mtx_unlock(&client->messages_lock);\n        // what the heck?\n        GRERROR(GRSTR("[gracht_client_wait')
m('queue-full-drops', 'C03', D, 'while (gr_queue_enqueue(&worker->job_queue, recvMessage)) {', 'if (gr_queue_enqueue(&worker->job_queue, recvMessage)) {')
m('disconnect-before-drain', 'C03 C09', S, 'for (i = 0; entry && i < GRACHT', 'if (entry && (events & GRACHT_AIO_EVENT_DISCONNECT)) { client_destroy(server, handle); return 0; }\n        for (i = 0; entry && i < GRACHT')
m('unsub-clears-neighbour', 'C04', S, 'client->subscriptions[block] &= ~(1u << offset);', 'client->subscriptions[block] &= ~(1u << offset) & ~((uint32_t)(id == 31) << 30);')
m('sub-block-wrong', 'C04', S, '    client->subscriptions[block] |= (1u << offset);', '    client->subscriptions[block & 3] |= (1u << offset);')
m('signal-one', 'C05', C, '    cnd_broadcast(&client->messages_event);\n    mtx_unlock', '    cnd_signal(&client->messages_event);\n    mtx_unlock')
m('disconnect-flag-late', 'C05', C, '''        client->disconnected = true;
    }
    cnd_broadcast(&client->messages_event);
    mtx_unlock(&client->messages_lock);
''', '''        client->disconnected = true;
    }
    if (!client->disconnected) cnd_broadcast(&client->messages_event);
    mtx_unlock(&client->messages_lock);
''')
m('wait-ignores-error', 'C05 C06', C, 'if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {\n                mtx', 'if (descriptor->status == GRACHT_MESSAGE_COMPLETED) {\n                mtx')
m('await-ignores-error', 'C05 C06', C, 'if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {', 'if (descriptor == NULL || descriptor->status == GRACHT_MESSAGE_COMPLETED) {')
m('await-any-needs-first', 'C05', C, 'return (!(flags & GRACHT_AWAIT_ALL) && completed > 0) || completed == contextCount;', 'return (!(flags & GRACHT_AWAIT_ALL) && completed > 0) || completed >= contextCount - (contextCount > 8);')
m('wait-any-response', 'C05', C, 'if (status == 1 || (status == 0 && context)) {', 'if (status == 1 || (status == 0 && context && !(flags & GRACHT_MESSAGE_BLOCK))) {')
m('error-to-all', 'C06', S, 'gracht_control_event_error_single(recvMessage, messageId, ENOENT);', 'gracht_control_event_error_all(server, messageId, ENOENT);')
m('unknown-service-silent', 'C06', S, '        gracht_control_event_error_single(recvMessage, messageId, ENOENT);', '        if (errno != ENOENT) gracht_control_event_error_single(recvMessage, messageId, ENOENT);')
m('recv-capacity-plus', 'C07', SH, 'expected > capacity)', 'expected > capacity + 4)')
m('recv-min-length', 'C07 C08', SH, 'if (expected < GRACHT_MESSAGE_HEADER_SIZE || expected', 'if (expected < 8 || expected')
m('partial-header-lost', 'C07', SH, 'if (received > partial->length) {', 'if (received > partial->length && received > 3) {')
m('partial-stale', 'C07 C08', SH, 'partial->length = received;\n', 'partial->length = received & ~(received > 4096 ? 1u : 0u);\n')
m('sub-no-size-check', 'C07', K, '''    if (__buffer->index + sizeof(uint8_t) > __message->size) {
        return;
    }
    __protocol = deserialize_uint8_t(__buffer);
    gracht_control_subscribe_invocation''', '''    __protocol = deserialize_uint8_t(__buffer);
    gracht_control_subscribe_invocation''')
m('server-blocks-on-read', 'C07', S, 'recv_client(client.client, message, 0);', 'recv_client(client.client, message, GRACHT_MESSAGE_BLOCK);')
m('control-error-short', 'C08', C, 'GRACHT_MESSAGE_HEADER_SIZE + sizeof(uint32_t) + sizeof(int)) {', 'GRACHT_MESSAGE_HEADER_SIZE) {')
m('sigpipe', 'C08 C09', SH, 'flags | MSG_NOSIGNAL);', 'flags);')
m('eagain-disconnects', 'C08', C, 'reason != EAGAIN && reason != EWOULDBLOCK && reason != ENOMEM', 'reason != ENOMEM')
m('enomem-disconnects', 'C08 C16', C, 'reason != EAGAIN && reason != EWOULDBLOCK && reason != ENOMEM', 'reason != EAGAIN && reason != EWOULDBLOCK')
m('partial-leaked', 'C09', LS, '    free(client->partial.data);\n', '')
m('accept-leak-on-full', 'C09 C16', LS, '        status = close(client->base.handle);', '        if (!client->partial.length) status = close(client->base.handle);')
m('arena-find-slack', 'C10', A, 'if (itr->length >= size) {', 'if (itr->length + HEADER_SIZE >= size) {')
m('arena-merge-noheader', 'C10', A, '                itr->length += next->length + HEADER_SIZE;', '                itr->length += next->length;')
m('arena-free-noheader', 'C10', A, '            header->length += nextHeader->length + HEADER_SIZE;\n        }\n    }\n    mtx', '            header->length += nextHeader->length;\n        }\n    }\n    mtx')
m('arena-relocate-short', 'C10', A, 'memcpy(relocated, &header->payload[0], header->length);', 'memcpy(relocated, &header->payload[0], correctedSize < header->length ? correctedSize : header->length);')
m('arena-relocate-keeps', 'C10', A, '                gracht_arena_free(arena, allocation, 0);\n', '')
m('arena-failed-grow-frees', 'C10', A, '''                memcpy(relocated, &header->payload[0], header->length);
                gracht_arena_free(arena, allocation, 0);
            }''', '''                memcpy(relocated, &header->payload[0], header->length);
            }
            gracht_arena_free(arena, allocation, 0);''')
m('arena-grow-nocheck', 'C10', A, '(nextHeader->length + HEADER_SIZE) < correctedSize) {', '(nextHeader->length + 2 * HEADER_SIZE) < correctedSize) {')
m('hash-wrap', 'C11', H, '        // store next space and move to next index\n        previous = current;\n        index    = (index + 1) & (hashtable->capacity - 1);', '        // store next space and move to next index\n        previous = current;\n        index    = index + 1;\n        if (index == hashtable->capacity) { previous->probeCount = 0; break; }')
m('hash-replace-counts', 'C11', H, '                return &((struct hashtable_element*)hashtable->swap)->payload[0];\n            }\n\n            // ok so', '                hashtable->element_count++;\n                return &((struct hashtable_element*)hashtable->swap)->payload[0];\n            }\n\n            // ok so')
m('hash-nocmp', 'C11', H, 'if (current->hash == hash && !hashtable->cmp(&current->payload[0], key)) {\n            gr_', 'if (current->hash == hash) {\n            gr_')
m('hash-enum-skip-last', 'C11', H, 'for (i = 0; i < hashtable->capacity; i++) {\n        struct hashtable_element* current = GET_ELEMENT(hashtable, i);\n        if (current->probeCount) {', 'for (i = 0; i < hashtable->capacity; i++) {\n        struct hashtable_element* current = GET_ELEMENT(hashtable, i);\n        if (current->probeCount && current->probeCount < 9) {')
m('queue-overflow', 'C11', Q, '        queue->queue_index  -= queue->capacity;', '        queue->queue_index  %= queue->capacity;')
m('stack-drop', 'C11', ST, 'if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {', 'if (stack->index < stack->count) {')
m('stack-resize-late', 'C11', ST, 'if (stack->index < stack->count ||', 'if (stack->index <= stack->count ||')
m('norwlock-action', 'C12', S, '    rwlock_r_lock(&server->protocols_lock);\n    function', '    function', S, '    rwlock_r_unlock(&server->protocols_lock);\n    if (!function', '    if (!function')
m('subscribe-readlock', 'C12', S, '''    // Subscriptions are read by any thread that broadcasts events, so the write-lock is needed to change them.
    rwlock_w_lock(&message->server->clients_lock);''', '''    rwlock_r_lock(&message->server->clients_lock);''', S, '''    client_subscribe(entry->client, protocol);
    rwlock_w_unlock(&message->server->clients_lock);
}''', '''    client_subscribe(entry->client, protocol);
    rwlock_r_unlock(&message->server->clients_lock);
}''', S, '''        client_subscribe(newEntry.client, protocol);
        gr_hashtable_set(&message->server->clients, &newEntry);
        rwlock_w_unlock(&message->server->clients_lock);''', '''        client_subscribe(newEntry.client, protocol);
        gr_hashtable_set(&message->server->clients, &newEntry);
        rwlock_r_unlock(&message->server->clients_lock);''', S, '''            rwlock_w_unlock(&message->server->clients_lock);
            GRERROR(GRSTR("gracht_control_sub''', '''            rwlock_r_unlock(&message->server->clients_lock);
            GRERROR(GRSTR("gracht_control_sub''')
m('client-remove-nolock', 'C12', C, '''    mtx_lock(&client->messages_lock);
    gr_hashtable_remove(&client->messages,
                     &''', '''    gr_hashtable_remove(&client->messages,
                     &''', C, '''        .id = context->message_id
    });
    mtx_unlock(&client->messages_lock);''', '''        .id = context->message_id
    });''')
m('client-add-nolock', 'C12', C, '    mtx_lock(&client->messages_lock);\n    gr_hashtable_set(&client->messages, &entry);\n    mtx_unlock(&client->messages_lock);', '    gr_hashtable_set(&client->messages, &entry);')
m('status-nolock', 'C12', C, '''    descriptor->status = GRACHT_MESSAGE_ERROR;
    mtx_unlock(&client->messages_lock);''', '''    mtx_unlock(&client->messages_lock);
    descriptor->status = GRACHT_MESSAGE_ERROR;''')
m('worker-state-nolock', 'C12 C13', D, '''        mtx_lock(&pool->workers[i].sync_object);
        pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
        cnd_signal(&pool->workers[i].signal);
        mtx_unlock(&pool->workers[i].sync_object);''', '''        pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
        cnd_signal(&pool->workers[i].signal);''')
m('workers-after-clients', 'C13', S, '''    // destroy all our workers
    if (server->worker_pool) {
        gracht_worker_pool_destroy(server->worker_pool);
    }

''', '', S, '    // destroy the event descriptor\n', '''    if (server->worker_pool) {
        gracht_worker_pool_destroy(server->worker_pool);
    }

    // destroy the event descriptor
''')
m('startup-state-overwrites', 'C13', D, '    if (worker->state == WORKER_STARTUP) {\n        worker->state = WORKER_ALIVE;\n    }', '    worker->state = WORKER_ALIVE;')
m('drain-leak', 'C13 C16', D, '''    job = gr_queue_dequeue(&worker->job_queue);
    while (job) {
        server_cleanup_message(workerContext->server, job);
        job = gr_queue_dequeue(&worker->job_queue);
    }
''', '')
m('jobs-run-after-shutdown', 'C13', D, '''    while (job) {
        server_cleanup_message''', '''    while (job) {
        server_invoke_action(workerContext->server, job);
        server_cleanup_message''')
m('dgram-notrunc', 'C14', LS, '(int)(socketFlags | MSG_TRUNC)', '(int)(socketFlags)')
m('dgram-length-loose', 'C14', LS, '*((uint32_t*)&base[MSG_INDEX_LEN]) != (uint32_t)bytesRead) {', '*((uint32_t*)&base[MSG_INDEX_LEN]) > (uint32_t)bytesRead) {')
m('dgram-unsub-stays', 'C14 C09', S, '    if (cleanup) {\n', '    if (cleanup && 0) {\n')
m('dgram-bad-is-fatal', 'C14', LS, '        errno = EAGAIN;\n        return -1;\n    }\n#endif', '        errno = EPIPE;\n        return -1;\n    }\n#endif')
m('dgram-address-stale', 'C14', LS, '    memset(&context->payload[0], 0, (size_t)addrlen);\n', '')
m('respond-leak', 'C16', S, '''        errno  = ENODEV;
        status = -1;
    }
    else {''', '''        errno  = ENODEV;
        return -1;
    }
    else {''')
m('event-leak-unknown', 'C16', S, '''        stack_push(&server->bufferStack, message->data);
        errno = ENOENT;''', '''        errno = ENOENT;''')
m('send-nonblock-rest', 'C17', SH, '        flags &= ~MSG_DONTWAIT;\n', '')
m('send-nolock', 'C17', LS, '    mtx_lock(&client->send_lock);\n', '', LS, '    mtx_unlock(&client->send_lock);\n', '')
m('alloc-extra-small', 'C17', S, 'configuration->max_message_size + 512;', 'configuration->max_message_size + sizeof(struct gracht_message) - 2;')
m('alloc-extra-16', 'C17 C14', S, 'configuration->max_message_size + 512;', 'configuration->max_message_size + sizeof(struct gracht_message) + 16;')
m('client-arena-small', 'C17', C, 'arenaSize += 64;', 'arenaSize -= 64;')
m('client-arena-one', 'C17', C, '''    if (arenaSize < (client->max_message_size * 2)) {
        arenaSize = client->max_message_size * 2;
    }''', '''    if (arenaSize < client->max_message_size) {
        arenaSize = client->max_message_size;
    }''')
m('mt-arena-small', 'C17 C03', S, 'configuration->server_workers * server->allocationSize * 32;', 'configuration->server_workers * server->allocationSize / 4;')
m('free-given-buffer', 'C18', C, 'client->free_send_buffer = 1;\n    }', '}\n    client->free_send_buffer = 1;')
m('close-given-set', 'C18', S, 'if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {', 'if (server->set_handle != GRACHT_HANDLE_INVALID) {')
m('duplicate-register', 'C18', S, '    if (gr_hashtable_get(&server->protocols, protocol)) {', '    if (0) {')
m('second-connect', 'C18', C, '    if (client->iod != GRACHT_CONN_INVALID) {', '    if (client->iod > 1000) {')
m('given-set-zero', 'C18', S, 'if (configuration->set_descriptor_provided) {', 'if (configuration->set_descriptor_provided && configuration->set_descriptor > 0) {')
m('any-set-is-given', 'C18', S, 'if (configuration->set_descriptor_provided) {', 'if (configuration->set_descriptor_provided || configuration->set_descriptor > 0) {')
