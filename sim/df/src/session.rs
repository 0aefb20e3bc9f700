//! Query sessions whose scans wait for the simulator's clock.

use std::any::Any;
use std::fmt;
use std::sync::Arc;

use datafusion::execution::SessionStateBuilder;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_common::config::ConfigOptions;
use datafusion_common::{Result as DFResult, Statistics};
use datafusion_execution::disk_manager::DiskManagerConfig;
use datafusion_execution::runtime_env::{RuntimeConfig, RuntimeEnv};
use datafusion_execution::{SendableRecordBatchStream, TaskContext};
use datafusion_physical_plan::stream::RecordBatchStreamAdapter;
use datafusion_physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use futures::StreamExt;
use vsim::world::{gen_bool, latency, pick};

/// Passes a scan on, batch by batch, each after a drawn delay.
#[derive(Debug)]
struct Slow(Arc<dyn ExecutionPlan>);

impl DisplayAs for Slow {
    fn fmt_as(&self, _t: DisplayFormatType, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Slow")
    }
}

impl ExecutionPlan for Slow {
    fn name(&self) -> &str {
        "Slow"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn properties(&self) -> &PlanProperties {
        self.0.properties()
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> DFResult<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> DFResult<SendableRecordBatchStream> {
        let inner = self.0.execute(partition, context)?;
        let schema = inner.schema();
        let slow = inner.then(move |b| async move {
            latency().await;
            vsim::ev!("partition {partition} yields {:?} rows", b.as_ref().map(|b| b.num_rows()).ok());
            b
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, slow)))
    }
    fn statistics(&self) -> DFResult<Statistics> {
        self.0.statistics()
    }
}

#[derive(Debug)]
struct SlowScans;

fn slow(plan: Arc<dyn ExecutionPlan>) -> DFResult<Arc<dyn ExecutionPlan>> {
    let kids: Vec<Arc<dyn ExecutionPlan>> = plan.children().into_iter().cloned().collect();
    if kids.is_empty() || plan.name() == "TakeRowsExec" {
        return Ok(Arc::new(Slow(plan)));
    }
    let kids = kids.into_iter().map(slow).collect::<DFResult<Vec<_>>>()?;
    plan.with_new_children(kids)
}

impl PhysicalOptimizerRule for SlowScans {
    fn optimize(&self, plan: Arc<dyn ExecutionPlan>, _: &ConfigOptions) -> DFResult<Arc<dyn ExecutionPlan>> {
        slow(plan)
    }
    fn name(&self) -> &str {
        "slow_scans"
    }
    fn schema_check(&self) -> bool {
        true
    }
}

fn context(config: SessionConfig, slow: bool) -> SessionContext {
    let rt = RuntimeEnv::new(RuntimeConfig::new().with_disk_manager(DiskManagerConfig::Disabled)).expect("runtime environment");
    let mut b = SessionStateBuilder::new().with_config(config).with_runtime_env(Arc::new(rt)).with_default_features();
    if slow {
        b = b.with_physical_optimizer_rule(Arc::new(SlowScans));
    }
    SessionContext::new_with_state(b.build())
}

/// A session with drawn settings.
pub fn session(rows: usize) -> (SessionContext, String) {
    let parts = *pick(&[1usize, 2, 4]);
    let batch = *pick(&[8192usize, 100, 7, 1]);
    let batch = if rows > 300 { batch.max(7) } else { batch };
    let (stats, coalesce) = (gen_bool(1, 4), gen_bool(1, 3));
    let mut c = SessionConfig::new()
        .with_target_partitions(parts)
        .with_batch_size(batch)
        .with_collect_statistics(stats)
        .with_coalesce_batches(!coalesce);
    c.options_mut().execution.planning_concurrency = 1;
    (context(c, true), format!("{parts} partitions, batches of {batch}"))
}

/// The session that answers queries over the reference rows.
pub fn plain_session() -> SessionContext {
    context(SessionConfig::new().with_target_partitions(1), false)
}

/// A session over the engine's own tables that plans as eagerly as a drawn one.
pub fn engine_session(partitions: usize) -> SessionContext {
    context(SessionConfig::new().with_target_partitions(partitions).with_batch_size(1), false)
}
