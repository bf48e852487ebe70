"""The protocol as it was read off the source and its documentation.

This is the reference side of the checks: which message kinds exist, under
which wire number, with which fields in which order, which of them are signed
and encrypted, what may be nested in them and who may sign them.  Nothing here
is derived from the code under test at run time.
"""
import collections

M = collections.namedtuple('M', [
    'name',      # module.Class
    'slots',     # serialized fields, in order
    'sign',      # signed at all?
    'encrypt',   # encrypted on request?
    'nested',    # field: (class, None allowed, list)
    'enums',     # field: wire values
    'owners',    # who may sign it
    'chain',     # fields giving access to the task chain, in order
    'task',      # part of the task chain
])


def _m(name, slots, **kwargs):
    return M(name, tuple(slots), **kwargs)


# pylint: disable=line-too-long
TYPES = {
    0: _m('base.Hello', ['rand_val', 'proto_id', 'node_info', 'port', 'client_ver', 'solve_challenge', 'challenge', 'difficulty', 'metadata'],
        sign=True, encrypt=False, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1: _m('base.RandVal', ['rand_val'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    2: _m('base.Disconnect', ['reason'],
        sign=True, encrypt=False, nested={},
        enums={'reason': ['duplicate_peers', 'too_many_peers', 'refresh', 'unverified', 'protocol_version', 'bad_protocol', 'timeout', 'no_more_messages', 'wrong_encryption', 'resource_handshake', 'key_not_difficult', 'bootstrap']},
        owners=[], chain=[], task=False),
    3: _m('base.ChallengeSolution', ['solution'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1001: _m('p2p.Ping', [],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1002: _m('p2p.Pong', [],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1003: _m('p2p.GetPeers', [],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1004: _m('p2p.Peers', ['peers'],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1005: _m('p2p.GetTasks', [],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1006: _m('p2p.Tasks', ['tasks'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1007: _m('p2p.RemoveTask', ['task_id'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1008: _m('p2p.GetResourcePeers', [],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1009: _m('p2p.ResourcePeers', ['resource_peers'],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1010: _m('p2p.Degree', ['degree'],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1011: _m('p2p.Gossip', ['gossip'],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1012: _m('p2p.StopGossip', [],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1013: _m('p2p.LocRank', ['node_id', 'loc_rank'],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1014: _m('p2p.FindNode', ['node_key_id'],
        sign=False, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1015: _m('p2p.WantToStartTaskSession', ['node_info', 'conn_id', 'super_node_info'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1016: _m('p2p.SetTaskSession', ['key_id', 'node_info', 'conn_id', 'super_node_info'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    1017: _m('p2p.RemoveTaskContainer', ['remove_tasks'],
        sign=True, encrypt=True, nested={'remove_tasks': ('p2p.RemoveTask', False, True)},
        enums={},
        owners=[], chain=[], task=False),
    2001: _m('tasks.WantToComputeTask', ['perf_index', 'cpu_usage', 'max_resource_size', 'max_memory_size', 'price', 'num_subtasks', 'concent_enabled', 'extra_data', 'provider_public_key', 'provider_ethereum_address', 'task_header'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    2002: _m('tasks.TaskToCompute', ['requestor_id', 'requestor_public_key', 'requestor_ethereum_public_key', 'provider_id', 'compute_task_def', 'want_to_compute_task', 'package_hash', 'size', 'concent_enabled', 'price', 'resources_options', 'ethsig', 'promissory_note_sig', 'concent_promissory_note_sig'],
        sign=True, encrypt=True, nested={'want_to_compute_task': ('tasks.WantToComputeTask', False, False)},
        enums={},
        owners=['requestor'], chain=[], task=True),
    2003: _m('tasks.CannotAssignTask', ['task_id', 'reason'],
        sign=True, encrypt=True, nested={},
        enums={'reason': ['NotMyTask', 'NoMoreSubtasks', 'TaskFinished', 'ConcentDisabled']},
        owners=[], chain=[], task=False),
    2004: _m('tasks.ReportComputedTask', ['address', 'node_info', 'port', 'key_id', 'extra_data', 'task_to_compute', 'size', 'package_hash', 'multihash', 'secret', 'options', 'stats'],
        sign=True, encrypt=True, nested={'task_to_compute': ('tasks.TaskToCompute', False, False)},
        enums={},
        owners=['provider'], chain=['task_to_compute'], task=True),
    2010: _m('tasks.SubtaskResultsAccepted', ['payment_ts', 'report_computed_task'],
        sign=True, encrypt=True, nested={'report_computed_task': ('tasks.ReportComputedTask', False, False)},
        enums={},
        owners=['requestor'], chain=['report_computed_task'], task=True),
    2011: _m('tasks.SubtaskResultsRejected', ['report_computed_task', 'force_get_task_result_failed', 'reason'],
        sign=True, encrypt=True, nested={'report_computed_task': ('tasks.ReportComputedTask', False, False), 'force_get_task_result_failed': ('concents.ForceGetTaskResultFailed', True, False)},
        enums={'reason': ['Results verification negative', 'Concent could not retrieve resources to verify', 'Concent results verification negative', 'Concent reported failure to retrieve the resources to verify', 'Could not retrieve resources']},
        owners=['requestor', 'concent'], chain=['report_computed_task'], task=True),
    2015: _m('tasks.TaskFailure', ['task_to_compute', 'err', 'reason'],
        sign=True, encrypt=True, nested={'task_to_compute': ('tasks.TaskToCompute', False, False)},
        enums={'reason': ['ComputationError', 'BudgetExceeded', 'TimeExceeded']},
        owners=['provider'], chain=['task_to_compute'], task=True),
    2016: _m('tasks.StartSessionResponse', ['conn_id'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    2026: _m('tasks.CannotComputeTask', ['task_to_compute', 'reason'],
        sign=True, encrypt=True, nested={'task_to_compute': ('tasks.TaskToCompute', False, False)},
        enums={'reason': ['CannotTakeWork', 'WrongCTD', 'WrongKey', 'WrongAddress', 'WrongEnvironment', 'NoSourceCode', 'WrongDockerImages', 'ConcentRequired', 'ConcentDisabled', 'InsufficientBalance', 'InsufficientDeposit', 'TooShortDeposit', 'PromissoryNoteMissing', 'OfferCancelled', 'ResourcesTooBig']},
        owners=['provider'], chain=['task_to_compute'], task=True),
    2027: _m('tasks.SubtaskPayment', ['subtask_id', 'reward', 'transaction_id', 'block_number'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    2028: _m('tasks.SubtaskPaymentRequest', ['subtask_id'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    2029: _m('tasks.AckReportComputedTask', ['report_computed_task'],
        sign=True, encrypt=True, nested={'report_computed_task': ('tasks.ReportComputedTask', False, False)},
        enums={},
        owners=['requestor', 'concent'], chain=['report_computed_task'], task=True),
    2030: _m('tasks.RejectReportComputedTask', ['attached_task_to_compute', 'task_failure', 'cannot_compute_task', 'reason'],
        sign=True, encrypt=True, nested={'attached_task_to_compute': ('tasks.TaskToCompute', True, False), 'task_failure': ('tasks.TaskFailure', True, False), 'cannot_compute_task': ('tasks.CannotComputeTask', True, False)},
        enums={'reason': ['SubtaskTimeLimitExceeded', 'GotMessageCannotComputeTask', 'GotMessageTaskFailure']},
        owners=['requestor', 'concent'], chain=['attached_task_to_compute', 'task_failure', 'cannot_compute_task'], task=True),
    3001: _m('resources.PushResource', ['copies', 'resource'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3002: _m('resources.HasResource', ['resource'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3003: _m('resources.WantsResource', ['resource'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3004: _m('resources.PullResource', ['resource'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3005: _m('resources.PullAnswer', ['resource', 'has_resource'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3008: _m('resources.ResourceHandshakeStart', ['resource', 'options'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3009: _m('resources.ResourceHandshakeNonce', ['nonce'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    3010: _m('resources.ResourceHandshakeVerdict', ['accepted', 'nonce'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
    4000: _m('concents.ServiceRefused', ['task_to_compute', 'reason'],
        sign=True, encrypt=True, nested={'task_to_compute': ('tasks.TaskToCompute', True, False)},
        enums={'reason': ['TOO_SMALL_COMMUNICATION_PAYMENT', 'TOO_SMALL_REQUESTOR_DEPOSIT', 'TOO_SMALL_PROVIDER_DEPOSIT', 'SYSTEM_OVERLOADED', 'DUPLICATE_REQUEST', 'REQUEST_FORMAT_OR_CONTENT_INVALID', 'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK', 'UNSUPPORTED_PROTOCOL_VERSION', 'PRICE_NOT_POSITIVE']},
        owners=['concent'], chain=['task_to_compute'], task=True),
    4001: _m('concents.ForceReportComputedTask', ['report_computed_task', 'result_hash'],
        sign=True, encrypt=True, nested={'report_computed_task': ('tasks.ReportComputedTask', False, False)},
        enums={},
        owners=['provider', 'concent'], chain=['report_computed_task'], task=True),
    4004: _m('concents.VerdictReportComputedTask', ['force_report_computed_task', 'ack_report_computed_task'],
        sign=True, encrypt=True, nested={'force_report_computed_task': ('concents.ForceReportComputedTask', False, False), 'ack_report_computed_task': ('tasks.AckReportComputedTask', False, False)},
        enums={},
        owners=['concent'], chain=['force_report_computed_task', 'ack_report_computed_task'], task=True),
    4005: _m('concents.FileTransferToken', ['subtask_id', 'token_expiration_deadline', 'storage_cluster_address', 'authorized_client_public_key', 'operation', 'files'],
        sign=True, encrypt=True, nested={},
        enums={'operation': ['upload', 'download']},
        owners=[], chain=[], task=False),
    4006: _m('concents.SubtaskResultsVerify', ['subtask_results_rejected', 'concent_promissory_note_sig'],
        sign=True, encrypt=True, nested={'subtask_results_rejected': ('tasks.SubtaskResultsRejected', False, False)},
        enums={},
        owners=['provider'], chain=['subtask_results_rejected'], task=True),
    4007: _m('concents.AckSubtaskResultsVerify', ['subtask_results_verify', 'file_transfer_token'],
        sign=True, encrypt=True, nested={'subtask_results_verify': ('concents.SubtaskResultsVerify', False, False), 'file_transfer_token': ('concents.FileTransferToken', False, False)},
        enums={},
        owners=['concent'], chain=['subtask_results_verify'], task=True),
    4008: _m('concents.SubtaskResultsSettled', ['origin', 'task_to_compute'],
        sign=True, encrypt=True, nested={'task_to_compute': ('tasks.TaskToCompute', False, False)},
        enums={'origin': ['results_accepted_timeout', 'results_rejected']},
        owners=['concent'], chain=['task_to_compute'], task=True),
    4009: _m('concents.ForceGetTaskResult', ['report_computed_task'],
        sign=True, encrypt=True, nested={'report_computed_task': ('tasks.ReportComputedTask', False, False)},
        enums={},
        owners=['requestor'], chain=['report_computed_task'], task=True),
    4010: _m('concents.AckForceGetTaskResult', ['force_get_task_result'],
        sign=True, encrypt=True, nested={'force_get_task_result': ('concents.ForceGetTaskResult', False, False)},
        enums={},
        owners=['concent'], chain=['force_get_task_result'], task=True),
    4011: _m('concents.ForceGetTaskResultFailed', ['task_to_compute'],
        sign=True, encrypt=True, nested={'task_to_compute': ('tasks.TaskToCompute', False, False)},
        enums={},
        owners=['concent'], chain=['task_to_compute'], task=True),
    4012: _m('concents.ForceGetTaskResultRejected', ['force_get_task_result', 'reason'],
        sign=True, encrypt=True, nested={'force_get_task_result': ('concents.ForceGetTaskResult', False, False)},
        enums={'reason': ['acceptance_time_limit_exceeded']},
        owners=['concent'], chain=['force_get_task_result'], task=True),
    4013: _m('concents.ForceGetTaskResultUpload', ['force_get_task_result', 'file_transfer_token'],
        sign=True, encrypt=True, nested={'force_get_task_result': ('concents.ForceGetTaskResult', False, False), 'file_transfer_token': ('concents.FileTransferToken', False, False)},
        enums={},
        owners=['concent'], chain=['force_get_task_result'], task=True),
    4014: _m('concents.ForceGetTaskResultDownload', ['force_get_task_result', 'file_transfer_token'],
        sign=True, encrypt=True, nested={'force_get_task_result': ('concents.ForceGetTaskResult', False, False), 'file_transfer_token': ('concents.FileTransferToken', False, False)},
        enums={},
        owners=['concent'], chain=['force_get_task_result'], task=True),
    4015: _m('concents.ForceSubtaskResults', ['ack_report_computed_task'],
        sign=True, encrypt=True, nested={'ack_report_computed_task': ('tasks.AckReportComputedTask', False, False)},
        enums={},
        owners=['provider', 'concent'], chain=['ack_report_computed_task'], task=True),
    4016: _m('concents.ForceSubtaskResultsResponse', ['subtask_results_accepted', 'subtask_results_rejected'],
        sign=True, encrypt=True, nested={'subtask_results_accepted': ('tasks.SubtaskResultsAccepted', True, False), 'subtask_results_rejected': ('tasks.SubtaskResultsRejected', True, False)},
        enums={},
        owners=['concent'], chain=['subtask_results_accepted', 'subtask_results_rejected'], task=True),
    4017: _m('concents.ForceSubtaskResultsRejected', ['force_subtask_results', 'reason'],
        sign=True, encrypt=True, nested={'force_subtask_results': ('concents.ForceSubtaskResults', False, False)},
        enums={'reason': ['premature: still within the verification timeout', 'too late: past the forced communication timeout']},
        owners=['concent'], chain=['force_subtask_results'], task=True),
    4018: _m('concents.ForcePayment', ['subtask_results_accepted_list'],
        sign=True, encrypt=True, nested={'subtask_results_accepted_list': ('tasks.SubtaskResultsAccepted', False, True)},
        enums={},
        owners=[], chain=[], task=False),
    4019: _m('concents.ForcePaymentCommitted', ['payment_ts', 'task_owner_key', 'provider_eth_account', 'amount_paid', 'recipient_type', 'amount_pending'],
        sign=True, encrypt=True, nested={},
        enums={'recipient_type': ['requestor', 'provider']},
        owners=[], chain=[], task=False),
    4020: _m('concents.ForcePaymentRejected', ['force_payment', 'reason'],
        sign=True, encrypt=True, nested={'force_payment': ('concents.ForcePayment', False, False)},
        enums={'reason': ['no unsettled tasks found', 'timestamp error - subtasks are not overdue yet']},
        owners=[], chain=[], task=False),
    4021: _m('concents.ForceReportComputedTaskResponse', ['reason', 'ack_report_computed_task', 'reject_report_computed_task'],
        sign=True, encrypt=True, nested={'ack_report_computed_task': ('tasks.AckReportComputedTask', True, False), 'reject_report_computed_task': ('tasks.RejectReportComputedTask', True, False)},
        enums={'reason': ['ack_from_requestor', 'reject_from_requestor', 'subtask_timeout', 'concent_ack']},
        owners=['concent'], chain=['ack_report_computed_task', 'reject_report_computed_task'], task=True),
    4022: _m('concents.ClientAuthorization', ['client_public_key'],
        sign=True, encrypt=True, nested={},
        enums={},
        owners=[], chain=[], task=False),
}

BY_NAME = {m.name: (t, m) for t, m in TYPES.items()}

HEADER_LEN = 11
SIG_LEN = 65
VERSION_LEN = 32
MSG_TTL = 600
FUTURE_TOLERANCE = 300
MIN_TIMESTAMP = 1262304000   # 2010-01-01
MAX_TIMESTAMP = 32819212800  # 3010-01-01
