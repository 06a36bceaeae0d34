extern crate dao_dao_core;
extern crate cw_fund_distributor;
extern crate dao_rewards_distributor;
extern crate btsg_ft_factory;
extern crate cw_admin_factory;
extern crate cw_payroll_factory;
extern crate cw_token_swap;
extern crate cw_tokenfactory_issuer;
extern crate cw_vesting;
extern crate cw721_roles;
extern crate dao_pre_propose_approval_single;
extern crate dao_pre_propose_approver;
extern crate dao_pre_propose_multiple;
extern crate dao_pre_propose_single;
extern crate dao_proposal_condorcet;
extern crate dao_proposal_multiple;
extern crate dao_proposal_single;
extern crate cw20_stake_external_rewards;
extern crate cw20_stake_reward_distributor;
extern crate cw20_stake;
extern crate dao_proposal_hook_counter;
extern crate dao_proposal_sudo;
extern crate dao_test_custom_factory;
extern crate dao_voting_cw20_balance;
extern crate dao_voting_cw20_staked;
extern crate dao_voting_cw4;
extern crate dao_voting_cw721_roles;
extern crate dao_voting_cw721_staked;
extern crate dao_voting_onft_staked;
extern crate dao_voting_token_staked;
extern crate cw_denom;
extern crate cw_hooks;
extern crate cw_paginate_storage;
extern crate cw_stake_tracker;
extern crate cw_tokenfactory_types;
extern crate cw_wormhole;
extern crate cw721_controllers;
extern crate dao_cw721_extensions;
extern crate dao_hooks;
extern crate dao_interface;
extern crate dao_pre_propose_base;
extern crate dao_voting;
